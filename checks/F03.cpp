// F03: tridiagonal solver
#include "../mc/solve.hpp"
#include "lalib/solver/tri_diag.hpp"
#include <optional>
using namespace lalib;
using namespace lalib::solver;

struct Tri { V l, d, u; size_t n() const { return d.size(); } };
static LM full(const Tri& t) { size_t n = t.n(); LM a(n * n, 0); for (size_t i = 0; i < n; ++i) { a[i * n + i] = t.d[i]; if (i + 1 < n) { a[i * n + i + 1] = t.u[i]; a[(i + 1) * n + i] = t.l[i]; } } return a; }
template<size_t N> static std::array<T, N> arr(const V& v) { std::array<T, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }
template<class M> struct Make { static M make(const Tri& t) { return M(t.l, t.d, t.u); } };
template<size_t N> struct Make<SizedTriDiagMat<T, N>> { static SizedTriDiagMat<T, N> make(const Tri& t) { return SizedTriDiagMat<T, N>(arr<N - 1>(t.l), arr<N>(t.d), arr<N - 1>(t.u)); } };

struct Env { Ch& ch; const Tri& t; LM A, S; size_t n; LD k; Env(Ch& c, const Tri& t_): ch(c), t(t_), A(full(t_)), S(A), n(t_.n()), k(40) { for (auto& x: S) x = std::fabs(x);
#ifdef LALIB_LAPACK_BACKEND
    // row exchanges: backward stable with respect to the norm of the matrix, not row by row
    LD m = 0; for (LD x: S) m = std::max(m, x); for (auto& x: S) x = m;
#endif
} };

template<class X, class Sol> void vec_solve(Env& e, Sol& s, int pat, int salt, bool alias, int zero = 0) {
    V b = zero >= 100 ? planted(e.A, e.n, zero - 100) : zeroed(pmat(pat, e.n, 1, salt), zero).e, g = mc::vals<T>(1, e.n, 77);
    X v = mkvec<X>(b), r = mkvec<X>(g); X& dst = alias ? v : r;
    e.ch.op();
    X* p = &s.solve_linear(v, dst); if (p != &dst) e.ch.fail("solve_linear does not return its result argument");
    if (dst.size() != e.n) e.ch.fail("the result has length %zu", (size_t)dst.size());
    residual(e.ch, alias ? "solve_linear(b, b)" : "solve_linear(b, x)", e.A, e.S, e.n, 1, [&](size_t i, size_t) { return dst[i]; }, [&](size_t i, size_t) { return b[i]; }, e.k);
    if (!alias) expect_unchanged(e.ch, "right-hand side", v, b);
}
template<class X, class Sol> void mat_solve(Env& e, Sol& s, size_t c, int pat, int salt, bool alias, int zero = 0) {
    Plain b = zeroed(pmat(pat, e.n, c, salt), zero), g = pmat(1, e.n, c, 77);
    X v = mkmat<X>(b), r = mkmat<X>(g); X& dst = alias ? v : r;
    e.ch.op();
    X* p = &s.solve_linear(v, dst); if (p != &dst) e.ch.fail("solve_linear does not return its result argument");
    residual(e.ch, alias ? "solve_linear(B, B)" : "solve_linear(B, X)", e.A, e.S, e.n, c, [&](size_t i, size_t j) { return dst(i, j); }, [&](size_t i, size_t j) { return b(i, j); }, e.k);
    if (!alias) expect_mat(e.ch, "right-hand sides", v, b);
}
template<class M> void mat_unchanged(Ch& ch, const M& m, const LM& A, size_t n) {
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((LD)m(i, j) != A[i * n + j]) ch.fail("element (%zu,%zu) of the matrix changed from %Lg to %Lg", i, j, A[i * n + j], (LD)m(i, j));
}
#define TRI_N 1, 2, 3, 4, 5, 6, 8
// all call forms, one after the other, on one solver
template<class M> void all(Ch& ch, const Tri& t, int ctor, int pat, int salt, bool sized_rhs) {
    Env e(ch, t); const size_t n = e.n;
    M m = Make<M>::make(t);
    std::optional<TriDiag<M>> s;
    if (ctor) { M c = m; s.emplace(std::move(c)); } else s.emplace(m);
    for (int round = 0; round < 2; ++round) {
        vec_solve<DV>(e, *s, pat, salt, false);
        vec_solve<DV>(e, *s, pat, salt + 1, true);
        for (size_t c: {1, 2, 3}) { mat_solve<DM>(e, *s, c, pat, salt + 2 + c, false); mat_solve<DM>(e, *s, c, pat, salt + 5 + c, true); }
        // right-hand sides that are zero, in part or as a whole; the result object held something else before
        for (int z = 1 + round; z < ZEROS; z += 2) { vec_solve<DV>(e, *s, pat, salt + z, z % 4 == 3, z); for (size_t c: {1, 2, 4}) mat_solve<DM>(e, *s, c, pat, salt + 3 + c, (z + (int)c) % 4 == 0, z); }
        for (int z: {0, 1, 2, 3, 4}) vec_solve<DV>(e, *s, pat, salt, (z + round) % 2, 100 + z);
        mat_unchanged(ch, m, e.A, n);
    }
    if (sized_rhs) for (size_t q: {TRI_N}) if (q == n) mc::dispatch<TRI_N>(ch, n, [&]<size_t N>() {
        vec_solve<SV<N>>(e, *s, pat, salt, false); vec_solve<SV<N>>(e, *s, pat, salt + 1, true);
        mat_solve<SM<N, 1>>(e, *s, 1, pat, salt + 3, false); mat_solve<SM<N, 2>>(e, *s, 2, pat, salt + 4, false); mat_solve<SM<N, 3>>(e, *s, 3, pat, salt + 5, true);
        vec_solve<SV<N>>(e, *s, pat, salt, false, 1); mat_solve<SM<N, 2>>(e, *s, 2, pat, salt + 4, false, 4); mat_solve<SM<N, 3>>(e, *s, 3, pat, salt + 4, false, 1);
        vec_solve<DV>(e, *s, pat, salt, false);
    });
    // the solver has its own copy: writing to the matrix afterwards does not reach it
    if (!ctor) { for (size_t i = 0; i < n; ++i) { m.data_d()[i] = T(99); if (i + 1 < n) { m.data_dl()[i] = T(7); m.data_du()[i] = T(-7); } } vec_solve<DV>(e, *s, pat, salt + 9, false); }
    auto s2 = *s; vec_solve<DV>(e, s2, pat, salt + 10, false); vec_solve<DV>(e, *s, pat, salt + 11, false);
}
static void run(Ch& ch, const Tri& t, bool sized, int ctor, int pat, int salt, bool sized_rhs) {
    ch.note("%s tridiagonal system of size %zu, solver built from %s", sized ? "fixed-size" : "dynamic", t.n(), ctor ? "a moved matrix" : "a matrix it copies");
    for (size_t i = 0; i < t.n() && mc::verbose(); ++i) ch.note("%g %g %g", i ? (double)t.l[i - 1] : 0., (double)t.d[i], i + 1 < t.n() ? (double)t.u[i] : 0.);
    if (!sized) all<DynTriDiagMat<T>>(ch, t, ctor, pat, salt, sized_rhs);
    else mc::dispatch<TRI_N>(ch, t.n(), [&]<size_t N>() { all<SizedTriDiagMat<T, N>>(ch, t, ctor, pat, salt, sized_rhs); });
}
// rows multiplied by powers of two: dominance is kept
static Tri rows_scaled(Tri t, int g) {
    size_t n = t.n();
    for (size_t i = 0; i < n; ++i) { int e = 2 * grade(g, i, n); t.d[i] = pow2_times(t.d[i], e); if (i) t.l[i - 1] = pow2_times(t.l[i - 1], e); if (i + 1 < n) t.u[i] = pow2_times(t.u[i], e); }
    return t;
}
static bool singular(const Tri& t) {
    size_t n = t.n(); std::vector<int> a(n * n, 0); for (size_t i = 0; i < n; ++i) { a[i * n + i] = (int)t.d[i]; if (i + 1 < n) { a[i * n + i + 1] = (int)t.u[i]; a[(i + 1) * n + i] = (int)t.l[i]; } }
    return leading_minors(a, (int)n).back() == 0;
}
// every diagonally dominant matrix with off-diagonal elements in a small set: diagonal = +-(row sum + surplus)
static void exhaustive(Ch& ch, size_t n, const std::vector<int>& off, bool signs) {
    bool sized = ch.pick(2); int ctor = ch.pick(2); Tri t;
    for (size_t i = 0; i + 1 < n; ++i) { t.l.push_back((T)ch.of(off)); t.u.push_back((T)ch.of(off)); }
    for (size_t i = 0; i < n; ++i) {
        LD s = (i ? std::fabs((LD)t.l[i - 1]) : 0) + (i + 1 < n ? std::fabs((LD)t.u[i]) : 0); int extra = ch.pick(2);
        if (s == 0 && !extra) s = 2;
        int sg = signs && ch.pick(2) ? -1 : 1; t.d.push_back((T)(sg * (s + extra)));
    }
    if (!ch.go()) return;
    if (singular(t)) return;
    run(ch, t, sized, ctor, n % 2 ? 1 : 0, 3, n < 4);
}
FAMILY(every_1x1) { exhaustive(ch, 1, {0}, true); }
FAMILY(every_2x2) { exhaustive(ch, 2, {-2, -1, 0, 1, 3}, true); }
FAMILY(every_3x3) { exhaustive(ch, 3, {-1, 0, 2}, true); }
FAMILY(every_4x4) { exhaustive(ch, 4, {-1, 1}, false); }
FAMILY_T(every_4x4_more) { exhaustive(ch, 4, {-1, 0, 2}, false); }
FAMILY_T(every_5x5) { exhaustive(ch, 5, {-1, 1}, false); }
FAMILY(any_size) {
    int kind = ch.pick(6); size_t n = 1 + ch.pick(mc::thorough() ? 130 : 40); int ctor = ch.pick(2), pat = ch.of({0, 1, 2}); bool sized = false;
    if (!ch.go()) return;
    Tri t; for (size_t i = 0; i + 1 < n; ++i) { t.l.push_back(kind == 0 ? T(-1) : mc::val<T>(kind == 3 ? 2 : 1, i, 4)); t.u.push_back(kind == 0 ? T(-1) : mc::val<T>(kind == 3 ? 2 : 1, i, 5)); if (kind == 4) t.l.back() = 0; if (kind == 5) t.u.back() = 0; }
    for (size_t i = 0; i < n; ++i) {
        LD s = (i ? std::fabs((LD)t.l[i - 1]) : 0) + (i + 1 < n ? std::fabs((LD)t.u[i]) : 0);
        t.d.push_back(kind == 0 ? T(2) : (T)((kind == 2 && i % 2 ? -1 : 1) * (1.5L * s + 0.25L)));
    }
    run(ch, t, sized, ctor, pat, 6, n < 9);
    for (size_t q: {TRI_N}) if (q == n) run(ch, t, true, ctor, pat, 7, true);
}
FAMILY(scaled) {
    int kind = ch.pick(4), g = 1 + ch.pick(GRADES - 1); size_t n = 1 + ch.pick(12); int ctor = ch.pick(2), pat = ch.of({1, 4, 5, 6});
    if (!ch.go()) return;
    Tri t; for (size_t i = 0; i + 1 < n; ++i) { t.l.push_back(kind == 0 ? T(-1) : mc::val<T>(1, i, 4)); t.u.push_back(kind == 0 ? T(-1) : mc::val<T>(1, i, 5)); if (kind == 2) t.l.back() = 0; if (kind == 3) t.u.back() = 0; }
    for (size_t i = 0; i < n; ++i) {
        LD s = (i ? std::fabs((LD)t.l[i - 1]) : 0) + (i + 1 < n ? std::fabs((LD)t.u[i]) : 0);
        t.d.push_back(kind == 0 ? T(2) : (T)((i % 2 ? -1 : 1) * (1.5L * s + 0.25L)));
    }
    run(ch, rows_scaled(t, g), false, ctor, pat, 6 + g, n < 5);
    for (size_t q: {TRI_N}) if (q == n) run(ch, rows_scaled(t, g), true, ctor, pat, 7, true);
}
FAMILY(large) {
    size_t n = ch.of({63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 10000, 32767, 32768, 32769, 33000, 65535, 65536, 65537, 66000, 100003}); int kind = ch.pick(2), ctor = ch.pick(2);
    if (!ch.go()) return;
    // the residual is checked on the three diagonals only
    Tri t; for (size_t i = 0; i + 1 < n; ++i) { t.l.push_back(kind ? T(-1) : mc::val<T>(1, i, 4)); t.u.push_back(kind ? T(-1) : mc::val<T>(1, i, 5)); }
    for (size_t i = 0; i < n; ++i) t.d.push_back(T(2.5));
    V b = mc::vals<T>(1, n, 1); DynTriDiagMat<T> m(t.l, t.d, t.u); auto s = ctor ? TriDiag<DynTriDiagMat<T>>(DynTriDiagMat<T>(m)) : TriDiag<DynTriDiagMat<T>>(m);
    for (int r = 0; r < 3; ++r) {
        DV v(b), x(V(n, T(0))); ch.op(); s.solve_linear(v, x);
        for (size_t i = 0; i < n; ++i) {
            LD z = (LD)b[i] - (LD)t.d[i] * (LD)x[i], sc = std::fabs((LD)b[i]) + std::fabs((LD)t.d[i] * (LD)x[i]);
            if (i) { z -= (LD)t.l[i - 1] * (LD)x[i - 1]; sc += std::fabs((LD)t.l[i - 1] * (LD)x[i - 1]); }
            if (i + 1 < n) { z -= (LD)t.u[i] * (LD)x[i + 1]; sc += std::fabs((LD)t.u[i] * (LD)x[i + 1]); }
            if (!(std::fabs(z) <= 40 * mc::eps<T>() * sc)) ch.fail("equation %zu of %zu is off by %Lg (solve %d)", i, n, z, r);
        }
        expect_unchanged(ch, "right-hand side", v, b);
    }
}
FAMILY(many_right_hand_sides) {
    bool sized = ch.pick(2); size_t n = 1 + ch.pick(9), c = rhs_count(ch.pick(RHS_COUNTS)); int pat = ch.of({0, 1, 5}); bool alias = ch.pick(2);
    if (!ch.go()) return;
    Tri t; for (size_t i = 0; i + 1 < n; ++i) { t.l.push_back(mc::val<T>(1, i, 4)); t.u.push_back(mc::val<T>(1, i, 5)); }
    for (size_t i = 0; i < n; ++i) { LD s = (i ? std::fabs((LD)t.l[i - 1]) : 0) + (i + 1 < n ? std::fabs((LD)t.u[i]) : 0); t.d.push_back((T)((i % 2 ? -1 : 1) * (1.5L * s + 0.25L))); }
    ch.note("size %zu, %zu right-hand sides%s", n, c, alias ? ", in place" : "");
    Env e(ch, t);
    auto go = [&](auto&& m) { TriDiag s(m); mat_solve<DM>(e, s, c, pat, 3, alias); mat_solve<DM>(e, s, c, pat, 4, !alias, 1 + n % (ZEROS - 1)); mat_solve<DM>(e, s, 1 + c / 3, pat, 5, alias); vec_solve<DV>(e, s, pat, 6, alias); };
    if (!sized) { DynTriDiagMat<T> m(t.l, t.d, t.u); go(m); }
    else for (size_t q: {TRI_N}) if (q == n) mc::dispatch<TRI_N>(ch, n, [&]<size_t N>() {
        auto m = Make<SizedTriDiagMat<T, N>>::make(t); go(m); TriDiag s(m);
        if constexpr (N == 2 || N == 5) if (c == 4) { mat_solve<SM<N, 4>>(e, s, 4, pat, 3, alias); mat_solve<SM<N, 8>>(e, s, 8, pat, 3, alias); mat_solve<SM<N, 9>>(e, s, 9, pat, 3, alias); mat_solve<SM<N, 17>>(e, s, 17, pat, 3, alias); mat_solve<SM<N, 33>>(e, s, 33, pat, 3, alias); }
    });
}
