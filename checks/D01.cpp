// D01: dense matrices hold exactly what was put in; every access path agrees, before and after every single write.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

static const std::vector<int>& dims() { static const std::vector<int> a = {0, 1, 2, 3, 4, 5, 7, 8, 16, 17}, b = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 64}; return mc::thorough() ? b : a; }

template<class X> void all_views(Ch& ch, const char* what, X& x, const Plain& p) {
    const X& c = x;
    expect_mat(ch, what, c, p);
    size_t n = p.n, m = p.m;
    ch.check((size_t)(x.end() - x.begin()) == n * m && (size_t)(c.end() - c.begin()) == n * m && (size_t)(c.cend() - c.cbegin()) == n * m, "number of elements iterated");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        size_t k = i * m + j;
        mc::expect_same<T>(ch, "operator() of a mutable matrix", k, x(i, j), p(i, j));
        mc::expect_same<T>(ch, "at", k, c.at(i, j), p(i, j));
        mc::expect_same<T>(ch, "mut_at", k, x.mut_at(i, j), p(i, j));
        mc::expect_same<T>(ch, "data", k, x.data()[k], p(i, j));
        mc::expect_same<T>(ch, "const data", k, c.data()[k], p(i, j));
        mc::expect_same<T>(ch, "begin", k, *(x.begin() + k), p(i, j));
        mc::expect_same<T>(ch, "const begin", k, *(c.begin() + k), p(i, j));
        mc::expect_same<T>(ch, "cbegin", k, *(x.cbegin() + k), p(i, j));
        ch.op(8);
    }
    size_t k = 0;
    for (auto& e: x) { mc::expect_same<T>(ch, "range for", k, e, p.e[k]); ++k; }
    ch.check(k == n * m, "number of elements in a range for");
}
template<class X> void writes(Ch& ch, const Plain& p0, int how, bool single, size_t pos) {
    X x = mkmat<X>(p0); Plain p = p0;
    auto put = [&](size_t k, T v) {
        size_t i = k / p.m, j = k % p.m;
        switch (how) { case 0: x(i, j) = v; break; case 1: x.mut_at(i, j) = v; break; case 2: x.data()[k] = v; break; case 3: *(x.begin() + k) = v; break; default: *(x.end() - (p.n * p.m - k)) = v; break; }
        p(i, j) = v; ch.op();
    };
    if (single) { put(pos, mc::val<T>(1, 99)); all_views(ch, "after one write", x, p); return; }
    for (size_t k = 0; k < p.n * p.m; ++k) put(k, mc::val<T>(1, k, 7));
    all_views(ch, "after writing every element", x, p);
}
static Plain diag_of(const V& d) { Plain p(d.size(), d.size()); for (size_t i = 0; i < d.size(); ++i) p(i, i) = d[i]; return p; }

FAMILY(dyn_build) {
    int n = ch.of(dims()), m = ch.of(dims()), how = ch.pick(7), pat = ch.pick(2);
    if (!ch.go()) return;
    ch.note("dynamic %dx%d, constructor %d", n, m, how);
    Plain p = pmat(pat, n, m, 1);
    ch.op();
    if (how == 0) { DM x(n, m, p.e); all_views(ch, "from vector", x, p); }
    else if (how == 1) { DM x(p.e, n, m); all_views(ch, "from vector (old form)", x, p); }
    else if (how == 2) { T v = mc::val<T>(pat, 5, 2); DM x = DM::filled(v, n, m); all_views(ch, "filled", x, Plain(n, m, V(n * m, v))); }
    else if (how == 3) { auto d = mc::vals<T>(pat, n, 3); DM x = DM::diag(d); all_views(ch, "diag", x, diag_of(d)); }
    else if (how == 4) { T v = mc::val<T>(pat, 6, 2); DM x = DM::diag(v, n); all_views(ch, "diag of a value", x, diag_of(V(n, v))); }
    else if (how == 5) { DM x = DM::identity(n); all_views(ch, "identity", x, diag_of(V(n, T(1)))); }
    else { DM x = DM::uninit(n, m); ch.check(x.shape() == std::make_pair((size_t)n, (size_t)m), "shape"); for (size_t k = 0; k < p.e.size(); ++k) x.data()[k] = p.e[k]; all_views(ch, "uninit then written", x, p); }
}
FAMILY(dyn_write_all) {
    int n = ch.of(dims()), m = ch.of(dims()), how = ch.pick(5);
    if (!ch.go()) return;
    ch.note("dynamic %dx%d, writes through %d", n, m, how);
    writes<DM>(ch, pmat(0, n, m, 1), how, false, 0);
}
FAMILY(dyn_write_one) {
    int n = 1 + ch.pick(mc::thorough() ? 9 : 6), m = 1 + ch.pick(mc::thorough() ? 9 : 6), how = ch.pick(5), pos = ch.pick(n * m);
    if (!ch.go()) return;
    ch.note("dynamic %dx%d, element %d written through %d", n, m, pos, how);
    writes<DM>(ch, pmat(0, n, m, 1), how, true, pos);
}
FAMILY(dyn_list) {
    int c = ch.pick(6);
    if (!ch.go()) return;
    auto v = [](int i) { return mc::val<T>(0, i, 3); };
    V e; for (int i = 0; i < 6; ++i) e.push_back(v(i));
    ch.op();
    switch (c) {
        case 0: { DM x(2, 3, {v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(2, 3, e)); break; }
        case 1: { DM x(3, 2, {v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(3, 2, e)); break; }
        case 2: { DM x(1, 6, {v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(1, 6, e)); break; }
        case 3: { DM x(6, 1, {v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(6, 1, e)); break; }
        case 4: { SM<2, 3> x({v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(2, 3, e)); break; }
        default: { SM<3, 2> x({v(0), v(1), v(2), v(3), v(4), v(5)}); all_views(ch, "from list", x, Plain(3, 2, e)); break; }
    }
}
FAMILY(sized_build) {
    auto s = ch.of(sized_shapes()); int how = ch.pick(7), pat = ch.pick(2);
    if (!ch.go()) return;
    ch.note("fixed-size %dx%d, constructor %d", s.first, s.second, how);
    at_shape(s, [&]<size_t N, size_t M>() {
        using X = SM<N, M>;
        Plain p = pmat(pat, N, M, 1); ch.op();
        if (how == 0) { X x(p.e); all_views(ch, "from vector", x, p); }
        else if (how == 1) { std::array<T, N * M> a; for (size_t k = 0; k < N * M; ++k) a[k] = p.e[k]; X x(a); all_views(ch, "from array", x, p); }
        else if (how == 2) { T v = mc::val<T>(pat, 5, 2); X x = X::filled(v); all_views(ch, "filled", x, Plain(N, M, V(N * M, v))); }
        else if (how == 6) { X x = X::uninit(); for (size_t k = 0; k < N * M; ++k) x.data()[k] = p.e[k]; all_views(ch, "uninit then written", x, p); }
        else if constexpr (N == M) {
            if (how == 3) { std::array<T, N> a; V d = mc::vals<T>(pat, N, 3); for (size_t k = 0; k < N; ++k) a[k] = d[k]; X x = X::diag(a); all_views(ch, "diag", x, diag_of(d)); }
            else if (how == 4) { T v = mc::val<T>(pat, 6, 2); X x = X::diag(v); all_views(ch, "diag of a value", x, diag_of(V(N, v))); }
            else { X x = X::identity(); all_views(ch, "identity", x, diag_of(V(N, T(1)))); }
        }
    });
}
FAMILY(sized_write) {
    auto s = ch.of(sized_shapes()); int how = ch.pick(5); int pos = ch.pick(std::max(1, std::min(40, s.first * s.second)) + 1);
    if (!ch.go()) return;
    ch.note("fixed-size %dx%d, writes through %d", s.first, s.second, how);
    at_shape(s, [&]<size_t N, size_t M>() {
        if (pos == 0) writes<SM<N, M>>(ch, pmat(0, N, M, 1), how, false, 0);
        else if constexpr (N * M > 0) writes<SM<N, M>>(ch, pmat(0, N, M, 1), how, true, pos - 1);
    });
}
// more than 2^16 rows, columns or elements
FAMILY(bulk) {
    static const std::vector<std::pair<int, int>> sh = {{70000, 1}, {1, 70000}, {300, 257}, {257, 256}, {400, 400}, {2, 33000}, {22000, 3}};
    auto s = ch.of(sh); int n = s.first, m = s.second, how = ch.pick(12);
    if (!ch.go()) return;
    ch.note("dynamic %dx%d, case %d", n, m, how);
    if (how >= 3 && how <= 5 && n > 400) return;          // diagonal forms are square
    const size_t N = n, M = m, last = N * M - 1; ch.op();
    Plain p = pmat(1, n, m, 1);
    if (how == 0) { DM x(n, m, p.e); all_views(ch, "from vector", x, p); }
    else if (how == 1) { DM x(p.e, n, m); all_views(ch, "from vector (old form)", x, p); }
    else if (how == 2) { T v = mc::val<T>(1, 5, 2); DM x = DM::filled(v, n, m); all_views(ch, "filled", x, Plain(n, m, V(N * M, v))); }
    else if (how == 3) { auto d = mc::vals<T>(1, n, 3); DM x = DM::diag(d); all_views(ch, "diag", x, diag_of(d)); }
    else if (how == 4) { T v = mc::val<T>(1, 6, 2); DM x = DM::diag(v, n); all_views(ch, "diag of a value", x, diag_of(V(n, v))); }
    else if (how == 5) { DM x = DM::identity(n); all_views(ch, "identity", x, diag_of(V(n, T(1)))); }
    else if (how == 6) writes<DM>(ch, p, 0, false, 0);
    else if (how == 7) writes<DM>(ch, p, 1, false, 0);
    else if (how == 8) { writes<DM>(ch, p, 0, true, 0); writes<DM>(ch, p, 1, true, last); }
    else if (how == 9) { writes<DM>(ch, p, 0, true, last); writes<DM>(ch, p, 2, true, 65536); }
    else if (how == 10) { writes<DM>(ch, p, 1, true, last / 2); writes<DM>(ch, p, 3, true, 65535); }
    else { writes<DM>(ch, p, 0, true, 65536); writes<DM>(ch, p, 4, true, last - 1); }
}
