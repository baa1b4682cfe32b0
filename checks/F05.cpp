// F05: preconditioned GMRES
#include "../mc/solve.hpp"
#include "../mc/sparse.hpp"
#include "lalib/solver/gmres.hpp"
#include <stdexcept>
using namespace lalib;
using namespace lalib::solver;

// zero-fill incomplete LU of a, in long double (reference)
static LM ilu0(const Plain& a) {
    size_t n = a.n; LM m = wide_of(a);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (a(i, j) != T(0)) {
        LD s = m[i * n + j]; for (size_t k = 0; k < std::min(i, j); ++k) s -= m[i * n + k] * m[k * n + j];
        m[i * n + j] = j < i ? s / m[j * n + j] : s;
    }
    return m;
}
static std::vector<LD> precond(const LM& m, size_t n, std::vector<LD> r) {
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) r[i] -= m[i * n + j] * r[j];
    for (size_t i = n; i-- > 0;) { for (size_t j = i + 1; j < n; ++j) r[i] -= m[i * n + j] * r[j]; r[i] /= m[i * n + i]; }
    return r;
}
static LD norm(const std::vector<LD>& v) { LD s = 0; for (LD x: v) s += x * x; return std::sqrt(s); }
static CSR csr(const Plain& p) { Mod m; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) if (p(i, j) != T(0)) m[{i, j}] = p(i, j); return CSR(coo(m, 1)); }

constexpr int RHS = 9;
static V rhs(int kind, size_t n, size_t at) {
    V b(n, T(0));
    for (size_t i = 0; i < n; ++i) switch (kind) {
        case 0: b[i] = T(1); break;
        case 1: b[i] = mc::val<T>(1, i, 1); break;
        case 2: break;                                                       // zero
        case 3: b[i] = i == at ? T(1) : T(0); break;
        case 4: b[i] = T(1000) * mc::val<T>(1, i, 2); break;
        case 5: b[i] = T(1e-3) * mc::val<T>(1, i, 3); break;
        case 6: b[i] = i % 2 ? T(-2) : T(2); break;
        case 7: case 8: break;                                               // planted by the caller
    }
    return b;
}
template<class M> void solve(Ch& ch, const Gmres<T, M>& g, const Plain& a, const LM& m, T tol, const V& b) {
    size_t n = a.n; DV v(b);
    ch.op();
    auto x = g.solve(v);
    if (x.size() != n) ch.fail("the solution has length %zu", (size_t)x.size());
    std::vector<LD> r(n), bb(n), ax(n, 0);
    for (size_t i = 0; i < n; ++i) {
        if (!std::isfinite((double)x[i])) ch.fail("component %zu of the solution is %g", i, (double)x[i]);
        ch.out((double)x[i]);
        r[i] = bb[i] = b[i]; for (size_t j = 0; j < n; ++j) { r[i] -= (LD)a(i, j) * (LD)x[j]; ax[i] += std::fabs((LD)a(i, j) * (LD)x[j]); }
    }
    if (mc::me()) mc::me()->checks++;
    LD res = norm(precond(m, n, r)), b0 = norm(precond(m, n, bb));
    LD slack = 200 * n * mc::eps<T>() * (b0 + norm(precond(m, n, ax)));
    if (!(res < (LD)tol + slack)) ch.fail("preconditioned residual norm is %Lg, tolerance %g, allowed rounding %Lg", res, (double)tol, slack);
    expect_unchanged(ch, "right-hand side", v, b);
}
// every right-hand side in turn on one solver; the first again at the end
// the rows may be multiplied by powers of two (g; the right-hand sides too), the right-hand sides and the tolerance once more (2^e): the same problem
static void one(Ch& ch, const Plain& a0, int st, double reltol, int first, int g = 0, int e = 0, int nrhs = RHS + 1) {
    Plain a = graded(a0, g, 0);
    LM m = ilu0(a); size_t n = a.n;
    if (mc::verbose()) for (size_t i = 0; i < a.n; ++i) { std::string s; for (size_t j = 0; j < a.n; ++j) s += " " + mc::str((mc::Wide<T>)a(i, j)); ch.note("[%s ] %s", s.c_str(), i ? "" : st ? "compressed rows" : "dense"); }
    auto go = [&](auto mat) {
        using M = decltype(mat);
        T tol = pow2_times((T)reltol, e);
        Gmres<T, M> gm(std::move(mat), tol);
        for (int r = 0; r < nrhs; ++r) {
            int kind = (first + r) % RHS; V b = rhs(kind, n, (first + r) % n);
            if (kind >= 7) b = planted(wide_of(a0), n, (first + (int)n + kind) % 5);
            for (size_t i = 0; i < n; ++i) b[i] = pow2_times(b[i], e + grade(g, i, n));
            if (kind == 4 && reltol < 1000 * 1e4 * (double)mc::eps<T>()) continue;          // that tolerance is below the rounding level of this right-hand side
            ch.note("right-hand side kind %d, tolerance %g", kind, (double)tol);
            solve(ch, gm, a, m, tol, b);
        }
    };
    if (st) go(csr(a)); else go(mkmat<DM>(a));
}
static double tolerance(Ch& ch) { bool f = sizeof(T) == 4; return f ? ch.of({1e-1, 1e-3}) : ch.of({1e-1, 1e-6, 1e-10}); }
FAMILY(every_1x1) { int st = ch.pick(2), v = ch.of({-3, -1, 1, 2, 7}), first = ch.pick(RHS); double t = tolerance(ch); if (!ch.go()) return; one(ch, Plain(1, 1, V{(T)v}), st, t, first); }
FAMILY(every_2x2) {
    int st = ch.pick(2), a = ch.of({-3, 3, 4}), b = ch.of({-3, 3, 5}), c = ch.range(-2, 2), d = ch.range(-2, 2); double t = tolerance(ch);
    if (!ch.go()) return;
    one(ch, Plain(2, 2, V{(T)a, (T)c, (T)d, (T)b}), st, t, (c + 2) % RHS);
}
FAMILY(every_3x3) {
    int st = ch.pick(2); Plain a(3, 3); int s = 0;
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { int v = i == j ? 0 : ch.range(-1, 1); a(i, j) = i == j ? T(i == 1 ? -4 : 4) : T(v); s = s * 3 + v + 1; }
    double t = tolerance(ch);
    if (!ch.go()) return;
    one(ch, a, st, t, s % RHS);
}
// every off-diagonal pattern of 4x4
FAMILY(every_pattern_4x4) {
    int st = ch.pick(2), mask = ch.pick(4096); double t = sizeof(T) == 4 ? 1e-3 : mask % 2 ? 1e-10 : 1e-5;
    if (!ch.go()) return;
    Plain a(4, 4); int q = 0;
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) if (i == j) a(i, j) = T(5 + i); else { if (mask >> q & 1) a(i, j) = mc::val<T>(1, q, 2); ++q; }
    one(ch, a, st, t, mask % RHS);
}
// dense, well conditioned but not diagonally dominant (the factorisation is then exact): Q + permuted structure
FAMILY(not_dominant) {
    int st = ch.pick(2); size_t n = 2 + ch.pick(10); int kind = ch.pick(4); double t = tolerance(ch);
    if (!ch.go()) return;
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) switch (kind) {
        case 0: a(i, j) = T(std::min(i, j) + 1); break;                                           // SPD, min(i,j)
        case 1: a(i, j) = T((LD)(std::min(i, j) + 1) / (std::max(i, j) + 1)); break;               // Lehmer
        case 2: a(i, j) = i == j ? T(2) : (i + 1 == j || j + 1 == i) ? T(-1) : T(0); break;         // Laplacian
        case 3: a(i, j) = i == j ? T(1) : i < j ? T(-0.5) : T(0.5); break;                          // identity plus skew
    }
    one(ch, a, st, t, (int)n % RHS);
}
FAMILY(stencils) {
    int st = ch.pick(2), w = ch.range(2, mc::thorough() ? 8 : 6), h = ch.range(1, mc::thorough() ? 8 : 6), kind = ch.pick(3); double t = tolerance(ch);
    if (!ch.go()) return;
    size_t n = w * h; Plain a(n, n);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        size_t i = y * w + x; a(i, i) = T(kind == 2 ? 6 : 4.5);
        if (x) a(i, i - 1) = T(-1); if (x + 1 < w) a(i, i + 1) = T(kind ? -1.25 : -1);
        if (y) a(i, i - w) = T(-1); if (y + 1 < h) a(i, i + w) = T(kind ? -0.75 : -1);
        if (kind == 2 && x && y) a(i, i - w - 1) = T(0.5);
    }
    one(ch, a, st, t, (int)n % RHS);
}
FAMILY(any_size) {
    int st = ch.pick(2), kind = ch.pick(3), first = ch.pick(RHS); size_t n = 1 + ch.pick(mc::thorough() ? 40 : 20);
    if (!ch.go()) return;
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD v = 0;
        if (i == j) v = (kind == 1 && i % 2 ? -1 : 1) * (LD)(n + 2);
        else if (kind < 2 || (i * 7 + j * 3) % 5 == 0) v = mc::val<double>(1, i * 64 + j, 3);
        a(i, j) = (T)v;
    }
    one(ch, a, st, sizeof(T) == 4 ? 1e-3 : 1e-8, first);
}

static Plain sample(int kind, size_t n) {
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD v = 0; size_t d = i > j ? i - j : j - i;
        if (i == j) v = (kind == 1 && i % 2 ? -1 : 1) * (LD)(n + 2);
        else if (kind < 2 || (kind == 2 && (i * 7 + j * 3) % 5 == 0)) v = mc::val<double>(1, i * 512 + j, 3);
        else if (kind == 3) v = d == 1 || d == 4 ? -1 : 0;
        a(i, j) = (T)(kind == 3 && i == j ? 5 : v);
    }
    return a;
}
FAMILY(scaled) {
    int st = ch.pick(2), kind = ch.pick(4), g = ch.pick(GRADES), x = ch.range(-2, 2), first = ch.of({0, 2, 5}); size_t n = 1 + ch.pick(8); double t = tolerance(ch);
    if (!ch.go()) return;
    ch.note("grading %d, right-hand sides and tolerance times 2^%d", g, x * mc::mag_exp<T>() / 2);
    one(ch, sample(kind, n), st, t, first, g, x * mc::mag_exp<T>() / 2);
}
FAMILY(larger) {
    int st = ch.pick(2), kind = ch.pick(4), g = ch.of({0, 3, 5}); size_t n = ch.of(larger_sizes());
    if (!ch.go()) return;
    if (st && kind < 2 && n > 66) return;
    if (n > 140 && kind != 3) return;
    ch.note("%zu x %zu kind %d, grading %d", n, n, kind, g);
    one(ch, sample(kind, n), st, sizeof(T) == 4 ? 1e-3 : 1e-9, (int)n % RHS, g, 0, 3);
}

// the zero-fill factorisation is a poor approximation: many iterations, up to more than fifty, before the tolerance is met
FAMILY(many_iterations) {
    int st = ch.pick(2), kind = ch.pick(8), size = ch.pick(mc::thorough() ? 8 : 5), e = ch.of({0, 1, -1}); double t = sizeof(T) == 4 ? ch.of({1e-1, 1e-2}) : ch.of({1e-2, 1e-5, 1e-8});
    if (!ch.go()) return;
    static const int ws[] = {5, 7, 9, 11, 13, 15, 16, 18};
    size_t w = ws[size], n = w * w; Plain a(n, n);
    for (size_t y = 0; y < w; ++y) for (size_t x = 0; x < w; ++x) {
        size_t i = y * w + x;
        if (kind < 3) {                                                     // Laplacian, and with convection along one or both axes
            T cx = T(kind ? 0.75 : 0), cy = T(kind == 2 ? -0.5 : 0);
            a(i, i) = T(4);
            if (x) a(i, i - 1) = T(-1) - cx; if (x + 1 < w) a(i, i + 1) = T(-1) + cx;
            if (y) a(i, i - w) = T(-1) - cy; if (y + 1 < w) a(i, i + w) = T(-1) + cy;
        } else {                                                            // scattered patterns, weakly dominant
            T s = 0;
            for (size_t k: {i * i + 3, i * 5 + 1, i * 7 + 11, i * i * i + 2}) { size_t j = k % n; if (j != i && a(i, j) == T(0)) { a(i, j) = T((k / n) % 2 && kind >= 4 ? 1 : -1); s += T(1); } }
            a(i, i) = kind < 5 ? s + T(0.25) : kind == 5 ? T(2) : kind == 6 ? T(i % 2 ? -2 : 2) : T(1.5);
        }
    }
    ch.note("%zu unknowns, kind %d", n, kind);
    one(ch, a, st, t, (int)(w + kind) % RHS, 0, e * mc::mag_exp<T>() / 2, 2);
}
