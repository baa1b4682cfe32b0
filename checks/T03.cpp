// T03: every history of constructions, extensions and writes of Hessenberg and upper-triangular matrices, against a dense model.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

struct Model {                       // grows by one row and column at a time
    bool hess; size_t n = 0; Plain p{0, 0};
    void grow() { Plain q(n + 1, n + 1); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) q(i, j) = p(i, j); p = q; ++n; }
    size_t newcol() const { return hess ? (n == 0 ? 1 : n + 2) : n + 1; }
    void extend(const V& c) { grow(); size_t k = 0; if (hess && n > 1) p(n - 1, n - 2) = c[k++]; for (size_t i = 0; i < n; ++i) p(i, n - 1) = c[k++]; }
    bool stored(size_t i, size_t j) const { return hess ? i <= j + 1 : i <= j; }
};
template<class X> void compare(Ch& ch, X& x, const Model& m) {
    const X& c = x;
    auto s = c.shape();
    if (s.first != m.n || s.second != m.n) ch.fail("shape is %zux%zu, expected %zux%zu", s.first, s.second, m.n, m.n);
    for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j < m.n; ++j) {
        mc::expect_same<T>(ch, "element", i * m.n + j, c(i, j), m.p(i, j)); mc::expect_same<T>(ch, "at", i * m.n + j, c.at(i, j), m.p(i, j));
        if (m.stored(i, j)) { mc::expect_same<T>(ch, "mutable element", i * m.n + j, x(i, j), m.p(i, j)); mc::expect_same<T>(ch, "mut_at", i * m.n + j, x.mut_at(i, j), m.p(i, j)); }
    }
    if constexpr (requires { c.get_col(size_t(0)); }) for (size_t j = 0; j < m.n; ++j) {
        auto col = c.get_col(j);
        size_t len = std::min(j + 2, m.n);
        if (col.size() != len) ch.fail("column %zu of a %zux%zu matrix has %zu elements", j, m.n, m.n, (size_t)col.size());
        for (size_t i = 0; i < len; ++i) mc::expect_same<T>(ch, "column view", i, col[i], m.p(i, j));
    }
}
static V packed(const Model& m) { V v; for (size_t j = 0; j < m.n; ++j) for (size_t i = 0; i < m.n; ++i) if (m.stored(i, j)) v.push_back(m.p(i, j)); return v; }
static Model start_model(bool hess, size_t n) { Model m{hess}; for (size_t k = 0; k < n; ++k) m.extend(mc::vals<T>(0, m.newcol(), (int)k + 30)); return m; }

// one operation; op: 0 zero extension, 1 column, 2.. column of wrong length, then writes
static const int NOP = 12;
template<class X> void apply(Ch& ch, X& x, Model& m, int op, int step) {
    ch.op();
    auto write = [&](size_t i, size_t j, bool viaMut) {
        if (i >= m.n || j >= m.n) return;
        T v = mc::val<T>(1, step * 7 + op, 5); bool threw = false;
        try { if (viaMut) x.mut_at(i, j) = v; else x(i, j) = v; } catch (const std::exception&) { threw = true; }
        if (threw == m.stored(i, j)) ch.fail("a write to (%zu, %zu) of a %zux%zu matrix %s", i, j, m.n, m.n, threw ? "throws" : "of the zero part is accepted");
        if (!threw) m.p(i, j) = v;
    };
    auto reject = [&](size_t len) {
        if (len == m.newcol()) return;
        bool threw = false;
        try { x.extend_with(mc::vals<T>(0, len, 60)); } catch (const std::invalid_argument&) { threw = true; }
        if (!threw) ch.fail("a column of %zu elements extends a %zux%zu matrix", len, m.n, m.n);
    };
    switch (op) {
        case 0: x.extend_with_zero(); m.extend(V(m.newcol(), T(0))); break;
        case 1: { V c = mc::vals<T>(0, m.newcol(), 70 + step); m.extend(c); x.extend_with(std::move(c)); break; }
        case 2: reject(m.newcol() - 1); break;
        case 3: reject(m.newcol() + 1); break;
        case 4: reject(m.n); break;
        case 5: if (m.n) write(m.n - 1, m.n - 1, false); break;
        case 6: if (m.n > 1) write(m.n - 1, m.n - 2, true); break;
        case 7: write(0, 0, true); break;
        case 8: if (m.n) write(0, m.n - 1, false); break;
        case 9: if (m.n > 2) write(m.n - 1, 0, false); break;
        case 10: if (m.n > 2) write(m.n - 1, m.n - 3, true); break;
        case 11: if (m.n) { V v = packed(m); if (!v.empty()) { size_t k = v.size() - 1; x.data()[k] = T(77); m.p(m.n - 1, m.n - 1) = T(77); } } break;
    }
}
template<class X> void run(Ch& ch, X& x, Model m, const std::vector<int>& ops) {
    compare(ch, x, m);
    int step = 0;
    for (int o: ops) { ch.note("operation %d on a %zux%zu matrix", o, m.n, m.n); apply(ch, x, m, o, step++); compare(ch, x, m); ch.state(mc::mix(ch.h, step)); }
}
FAMILY(histories) {
    bool hess = ch.pick(2); int init = ch.pick(hess ? 6 : 7); int depth = mc::thorough() ? 5 : 4; std::vector<int> ops;
    for (int i = 0; i < depth; ++i) ops.push_back(ch.pick(NOP));
    if (!ch.go()) return;
    ch.note("%s, start %d", hess ? "Hessenberg" : "upper triangular", init);
    if (hess) {
        if (init < 3) { auto x = HessenbergMat<T>::with_capacity(init * 5); run(ch, x, Model{true}, ops); }
        else { Model m = start_model(true, init - 3 + (init > 3)); HessenbergMat<T> x(packed(m)); run(ch, x, m, ops); }
    } else {
        if (init == 6) { DynUpperTriMat<T> x; run(ch, x, Model{false}, ops); }
        else if (init < 3) { auto x = DynUpperTriMat<T>::with_capacity(init * 5); run(ch, x, Model{false}, ops); }
        else { Model m = start_model(false, init - 3 + (init > 3)); DynUpperTriMat<T> x(packed(m)); run(ch, x, m, ops); }
    }
}
// long growth with a fixed pair of alternating operations
FAMILY(growth) {
    bool hess = ch.pick(2); int a = ch.pick(NOP), b = ch.pick(2), len = ch.of({9, 17, 24}), every = ch.of({1, 2, 3});
    if (!ch.go()) return;
    std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(i % every == 0 ? b : a);
    ch.note("%s, %d operations", hess ? "Hessenberg" : "upper triangular", len);
    if (hess) { auto x = HessenbergMat<T>::with_capacity(3); run(ch, x, Model{true}, ops); } else { DynUpperTriMat<T> x; run(ch, x, Model{false}, ops); }
}
FAMILY(packed_lengths) {
    bool hess = ch.pick(2); int len = ch.pick(mc::thorough() ? 6000 : 700);
    if (!ch.go()) return;
    // sizes that a packed matrix can have
    long n = -1; for (long k = 0; k <= len + 1; ++k) { long l = k == 0 ? 0 : hess ? k * (k + 3) / 2 - 1 : k * (k + 1) / 2; if (l == len) { n = k; break; } if (l > len) break; }
    ch.note("%s from %d packed elements", hess ? "Hessenberg" : "upper triangular", len);
    Model m{hess}; bool threw = false; ch.op();
    V v = mc::vals<T>(0, len, 3), keep = v;
    auto fill = [&] { Model q{hess}; q.n = n; q.p = Plain(n, n); size_t k = 0; for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) if (q.stored(i, j)) q.p(i, j) = keep[k++]; return q; };
    try {
        if (hess) { HessenbergMat<T> x(std::move(v)); if (n >= 0) { m = fill(); compare(ch, x, m); } }
        else { DynUpperTriMat<T> x(std::move(v)); if (n >= 0) { m = fill(); compare(ch, x, m); } }
    } catch (const std::invalid_argument&) { threw = true; }
    if (threw != (n < 0)) ch.fail("packed data of %d elements is %s", len, threw ? "rejected" : "accepted");
}
// hundreds of extensions: the packed storage exceeds 2^16 elements
FAMILY(bulk) {
    bool hess = ch.pick(2); int start = ch.of({0, 1, 2}), n = ch.of({100, 257, 400});
    if (!ch.go()) return;
    ch.note("%s grown to %d columns, start %d", hess ? "Hessenberg" : "upper triangular", n, start);
    Plain p(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (hess ? i <= j + 1 : i <= j) p(i, j) = mc::val<T>(1, i * n + j, 3);
    auto part = [&](size_t k) { Model m{hess}; m.n = k; m.p = Plain(k, k); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) m.p(i, j) = p(i, j); return m; };
    auto grow = [&](auto& x, size_t from) {
        for (size_t k = from; k < (size_t)n; ++k) {                        // column k; a Hessenberg matrix gets the element below the old diagonal with it
            V c; if (hess && k > 0) c.push_back(p(k, k - 1)); for (size_t i = 0; i <= k; ++i) c.push_back(p(i, k));
            ch.op();
            if (start == 2 && k % 5 == 4) { x.extend_with_zero(); size_t q = 0; if (hess && k > 0) x(k, k - 1) = c[q++]; for (size_t i = 0; i <= k; ++i) x.mut_at(i, k) = c[q++]; }
            else x.extend_with(std::move(c));
            if (k == 99 || k == 255 || k == 256 || k == 257 || k == 360 || k == 361 || k == 362 || k + 1 == (size_t)n) { Model m = part(k + 1); compare(ch, x, m); }
        }
    };
    if (hess) {
        if (start == 1) { HessenbergMat<T> x(packed(part(n / 2))); grow(x, n / 2); HessenbergMat<T> y(packed(part(n))); Model m = part(n); compare(ch, y, m); }
        else { auto x = HessenbergMat<T>::with_capacity(start * 10); grow(x, 0); }
    } else {
        if (start == 1) { DynUpperTriMat<T> x(packed(part(n / 2))); grow(x, n / 2); DynUpperTriMat<T> y(packed(part(n))); Model m = part(n); compare(ch, y, m); }
        else { DynUpperTriMat<T> x; grow(x, 0); }
    }
}
