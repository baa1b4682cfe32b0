// T01: tridiagonal, lower-triangular and Hermitian matrices read as the dense matrix they define, before and after writes.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

// A stored matrix kind: which positions are stored, which are mirrored, and how to build it from a dense model
enum Kind { TRI, LOW, HER };
static bool stored(Kind k, size_t i, size_t j) { return k == TRI ? (i <= j + 1 && j <= i + 1) : k == LOW ? j <= i : true; }
static Plain model(Kind k, size_t n, int pat, int salt) {
    Plain p(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (stored(k, i, j)) p(i, j) = mc::val<T>(pat, k == HER ? std::max(i, j) * (n > 40 ? n : 40) + std::min(i, j) : i * (n > 40 ? n : 40) + j, salt);
    return p;
}
static V packed_low(const Plain& p) { V v; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j <= i; ++j) v.push_back(p(i, j)); return v; }
static V band(const Plain& p, int d) { V v; for (size_t i = 0; i < p.n; ++i) { long j = (long)i + d; if (d < 0 && i == 0) continue; if (j >= 0 && j < (long)p.n) v.push_back(p(i, j)); } return v; }
template<size_t K> std::array<T, K> arr(const V& v) { std::array<T, K> a{}; for (size_t i = 0; i < K; ++i) a[i] = v[i]; return a; }

template<class X> void views(Ch& ch, const char* what, X& x, const Plain& p) {
    const X& c = x;
    expect_mat(ch, what, c, p);
    for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.n; ++j) { mc::expect_same<T>(ch, "at", i * p.n + j, c.at(i, j), p(i, j)); ch.op(); }
    // a reference to a structural zero stays zero while other elements are read
    for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.n; ++j) { const T& r = c(i, j); const T& s = c(j, i); T keep = c(i, i); (void)keep; if (!(r == p(i, j)) || !(s == p(j, i))) ch.fail("a reference to element (%zu, %zu) or its mirror image does not keep its value", i, j); }
}
template<class X> void raw_views(Ch& ch, Kind k, X& x, const Plain& p) {
    const X& c = x;
    if constexpr (requires { x.data_dl(); }) {
        V l = band(p, -1), d = band(p, 0), u = band(p, 1);
        for (size_t i = 0; i < l.size(); ++i) { mc::expect_same<T>(ch, "lower diagonal data", i, x.data_dl()[i], l[i]); mc::expect_same<T>(ch, "lower diagonal data", i, c.data_dl()[i], l[i]); }
        for (size_t i = 0; i < d.size(); ++i) { mc::expect_same<T>(ch, "diagonal data", i, x.data_d()[i], d[i]); mc::expect_same<T>(ch, "diagonal data", i, c.data_d()[i], d[i]); }
        for (size_t i = 0; i < u.size(); ++i) { mc::expect_same<T>(ch, "upper diagonal data", i, x.data_du()[i], u[i]); mc::expect_same<T>(ch, "upper diagonal data", i, c.data_du()[i], u[i]); }
    } else {
        V v = packed_low(p);
        for (size_t i = 0; i < v.size(); ++i) { mc::expect_same<T>(ch, "lower data", i, x.lower_data()[i], v[i]); mc::expect_same<T>(ch, "lower data", i, c.lower_data()[i], v[i]); }
    }
    (void)k;
}
// one write through accessor how at (i, j)
template<class X> void write(Ch& ch, Kind k, X& x, Plain& p, size_t i, size_t j, int how, T v) {
    ch.op();
    if (how == 2) {              // through the raw data
        if (!stored(k, i, j)) return;
        if constexpr (requires { x.data_dl(); }) { if (i == j) x.data_d()[i] = v; else if (i < j) x.data_du()[i] = v; else x.data_dl()[j] = v; }
        else { size_t a = std::max(i, j), b = std::min(i, j); x.lower_data()[a * (a + 1) / 2 + b] = v; }
        p(i, j) = v; if (k == HER) p(j, i) = v;
        return;
    }
    bool threw = false;
    try { if (how == 0) x(i, j) = v; else x.mut_at(i, j) = v; }
    catch (const std::exception&) { threw = true; }
    if (threw == stored(k, i, j)) ch.fail("a write to element (%zu, %zu) %s", i, j, threw ? "throws" : "of the zero part is accepted");
    if (!threw) { p(i, j) = v; if (k == HER) p(j, i) = v; }
}
template<class X> void history(Ch& ch, Kind k, X& x, Plain p, const std::vector<std::array<int, 3>>& ops) {
    views(ch, "as built", x, p); raw_views(ch, k, x, p);
    int s = 0;
    for (auto& o: ops) { write(ch, k, x, p, o[0], o[1], o[2], mc::val<T>(1, 50 + s++, 3)); views(ch, "after a write", x, p); raw_views(ch, k, x, p); }
    if constexpr (requires { x.into_lower_mat(); }) {
        auto l = x.into_lower_mat(); ch.op();
        Plain q = p; for (size_t i = 0; i < p.n; ++i) for (size_t j = i + 1; j < p.n; ++j) q(i, j) = T(0);
        views(ch, "truncated", l, q);
        for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.n; ++j) if (p.n < 80 || (i * 7 + j) % 97 == 0 || i + 1 == p.n) write(ch, LOW, l, q, i, j, (i + j) % 2, mc::val<T>(1, 90 + i * 9 + j, 3));
        views(ch, "truncated and written", l, q);
    }
}
#define TS 1, 2, 3, 4, 5, 8
static void with(Ch& ch, bool sized, Kind k, int n, int pat, int form, const std::vector<std::array<int, 3>>& ops) {
    Plain p = model(k, n, pat, 1);
    ch.note("%s %s n=%d pattern %d, %zu writes", sized ? "fixed-size" : "dynamic", k == TRI ? "tridiagonal" : k == LOW ? "lower triangular" : "Hermitian", n, pat, ops.size());
    if (!sized) {
        if (k == TRI) {
            V l = band(p, -1), d = band(p, 0), u = band(p, 1);
            if (form == 0) { DynTriDiagMat<T> x(l, d, u); history(ch, k, x, p, ops); } else { DynTriDiagMat<T> x{V(l), V(d), V(u)}; history(ch, k, x, p, ops); }
        } else if (k == LOW) { DynLowerTriMat<T> x(n, packed_low(p)); history(ch, k, x, p, ops); }
        else { DynHermiteMat<T> x(n, packed_low(p)); history(ch, k, x, p, ops); }
        return;
    }
    mc::dispatch<TS>(ch, n, [&]<size_t N>() {
        if (k == TRI) { SizedTriDiagMat<T, N> x(arr<N - 1>(band(p, -1)), arr<N>(band(p, 0)), arr<N - 1>(band(p, 1))); history(ch, k, x, p, ops); }
        else if (k == LOW) { SizedLowerTriMat<T, N> x(arr<N * (N + 1) / 2>(packed_low(p))); history(ch, k, x, p, ops); }
        else { SizedHermiteMat<T, N> x(arr<N * (N + 1) / 2>(packed_low(p))); history(ch, k, x, p, ops); }
    });
}
FAMILY(one_write) {
    bool sized = ch.pick(2); Kind k = (Kind)ch.pick(3); int n = sized ? ch.of({TS}) : ch.pick(mc::thorough() ? 14 : 10); int pat = ch.of({0, 1, 3}), form = !sized && k == TRI ? ch.pick(2) : 0;
    int w = ch.pick(n * n * 3 + 1);
    if (!ch.go()) return;
    std::vector<std::array<int, 3>> ops; if (w) { --w; ops.push_back({w / 3 / n, w / 3 % n, w % 3}); }
    with(ch, sized, k, n, pat, form, ops);
}
FAMILY(two_writes) {
    bool sized = ch.pick(2); Kind k = (Kind)ch.pick(3); int n = ch.of({1, 2, 3, 4}); std::vector<std::array<int, 3>> ops;
    for (int i = 0; i < 2; ++i) { int w = ch.pick(n * n * 3); ops.push_back({w / 3 / n, w / 3 % n, w % 3}); }
    if (!ch.go()) return;
    with(ch, sized, k, n, 0, 0, ops);
}
FAMILY(large) {
    Kind k = (Kind)ch.pick(3); int n = ch.of({16, 17, 33, 64}), how = ch.pick(3), pat = ch.pick(2);
    if (!ch.go()) return;
    std::vector<std::array<int, 3>> ops = {{n - 1, n - 1, how}, {n - 1, n - 2, how}, {n - 2, n - 1, how}, {n - 1, 0, how}, {0, n - 1, how}, {n / 2, n / 2 + 1, how}};
    with(ch, false, k, n, pat, 0, ops);
}
FAMILY(bulk) {
    Kind k = (Kind)ch.pick(3); int n = ch.of({100, 129, 257, 400}), how = ch.pick(3), pat = ch.of({1});
    if (!ch.go()) return;
    std::vector<std::array<int, 3>> ops = {{n - 1, n - 1, how}, {n - 1, n - 2, how}, {n - 2, n - 1, how}, {n - 1, 0, how}, {361 % n, 361 % n, how}};
    with(ch, false, k, n, pat, 0, ops);
}
// tridiagonal matrices of any length, read along the band and around it
FAMILY(long_tridiagonal) {
    size_t n = ch.of({1000, 4097, 65536, 70001}); int form = ch.pick(2);
    if (!ch.go()) return;
    V l = mc::vals<T>(1, n - 1, 1), d = mc::vals<T>(1, n, 2), u = mc::vals<T>(1, n - 1, 3);
    DynTriDiagMat<T> x = form ? DynTriDiagMat<T>{V(l), V(d), V(u)} : DynTriDiagMat<T>(l, d, u); const auto& c = x; ch.op();
    if (c.shape() != std::make_pair(n, n)) ch.fail("shape");
    auto all = [&] {
        for (size_t i = 0; i < n; ++i) {
            mc::expect_same<T>(ch, "diagonal", i, c(i, i), d[i]);
            if (i + 1 < n) { mc::expect_same<T>(ch, "upper diagonal", i, c(i, i + 1), u[i]); mc::expect_same<T>(ch, "lower diagonal", i, c.at(i + 1, i), l[i]); }
            for (size_t j: {(size_t)0, i / 2, (i + n / 2) % n, n - 1, i + 2, i + 65536}) if (j < n && (j > i + 1 || i > j + 1)) { mc::expect_same<T>(ch, "zero part", i, c(i, j), T(0)); mc::expect_same<T>(ch, "zero part", i, c(j, i), T(0)); }
        }
    };
    all();
    for (size_t i = 0; i < n; i += 3) { x(i, i) = d[i] = T(3); if (i + 1 < n) { x.mut_at(i, i + 1) = u[i] = T(4); x(i + 1, i) = l[i] = T(5); } }
    all();
}
