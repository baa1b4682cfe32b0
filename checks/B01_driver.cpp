// B01: one program of library operations on one backend.  Compiled once per backend into a shared object and driven by
// B01.cpp, which enumerates the programs.  Every observed value comes with the tolerance the program's rounding allows:
// 0 when every intermediate result is exactly representable, otherwise a forward error bound computed from magnitudes.
#define MC_NO_MAIN
#ifdef ELEM_REAL
#include "../mc/solve.hpp"
#endif
#include "../mc/sparse.hpp"
using LD = long double;
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include "lalib/ops/sp_mat_ops.hpp"
#include "B01_prog.hpp"
using namespace lalib;
using namespace lalib::solver;

struct Buf {
    double* v; double* t; int cap, n = 0;
    void raw(double x, double tol) { if (n < cap) { v[n] = x; t[n] = tol; } ++n; }
    template<class U> void put(const std::complex<U>& x, LD tol) { raw((double)x.real(), (double)tol); raw((double)x.imag(), (double)tol); }
    void put(float x, LD tol) { raw(x, (double)tol); }
    void put(double x, LD tol) { raw(x, (double)tol); }
    void code(int c) { raw(c, 0); }
};
static LD E() { return mc::eps<T>(); }

// ---------------------------------------------------------------- straight-line programs over registers
// Magnitudes of every component are carried along; ops counts the roundings on the longest path.
template<class VX, class MX> struct Regs {
    std::vector<VX> v; std::vector<MX> m; std::vector<std::vector<LD>> sv, sm; LD depth = 0; size_t n; bool exact;
    Buf& out;
    Regs(size_t n_, int pat, Buf& o): n(n_), exact(pat == 0), out(o) {
        for (int k = 0; k < NV; ++k) { V d = data(pat, n, k); v.push_back(mkvec<VX>(d)); sv.push_back(mags(d)); }
        for (int k = 0; k < NM; ++k) { Plain p(n, n, data(pat, n * n, k + 5)); m.push_back(mkmat<MX>(p)); sm.push_back(mags(p.e)); }
    }
    static std::vector<LD> mags(const V& d) { std::vector<LD> r; for (auto& x: d) r.push_back(mag(x)); return r; }
    static V data(int pat, size_t len, int salt) {
        if (pat) return mc::vals<T>(1, len, salt);
        V r; for (size_t i = 0; i < len; ++i) r.push_back(cplx((int)((i * 5 + salt * 3 + 1) % 5) - 2, (int)((i * 3 + salt) % 3) - 1)); return r;
    }
    static T sc(int k) { static const double re[] = {1, -1, 2, 0, 0.5}, im[] = {0, 0, -1, 0, 1}; return cplx(re[k], im[k]); }
    LD tol(LD s) { return exact ? 0 : 4 * (depth + 4) * E() * s; }
    void step(const Op& o) {
        auto& [k, i, j, r, a, b] = o;
        const size_t N = n;
        switch (k) {
            case ADD: add(v[i], v[j], v[r]); for (size_t q = 0; q < N; ++q) sv[r][q] = sv[i][q] + sv[j][q]; depth += 1; break;
            case SUB: sub(v[i], v[j], v[r]); for (size_t q = 0; q < N; ++q) sv[r][q] = sv[i][q] + sv[j][q]; depth += 1; break;
            case PLUS: v[r] = v[i] + v[j]; for (size_t q = 0; q < N; ++q) sv[r][q] = sv[i][q] + sv[j][q]; depth += 1; break;
            case MINUS: v[r] = v[i] - v[j]; for (size_t q = 0; q < N; ++q) sv[r][q] = sv[i][q] + sv[j][q]; depth += 1; break;
            case AXPY: axpy(sc(a), v[i], v[r]); { auto s = sv[i]; for (size_t q = 0; q < N; ++q) sv[r][q] += mag(sc(a)) * s[q]; } depth += 8; break;
            case SCALE: scale(sc(a), v[r]); for (size_t q = 0; q < N; ++q) sv[r][q] *= mag(sc(a)); depth += 6; break;
            case NEG: neg(v[i], v[r]); sv[r] = sv[i]; break;
            case SCALED: v[r] = sc(a) * v[i]; sv[r] = sv[i]; for (size_t q = 0; q < N; ++q) sv[r][q] *= mag(sc(a)); depth += 6; break;
            case DOT: { LD s = 0; for (size_t q = 0; q < N; ++q) s += sv[i][q] * sv[j][q]; T d = dot(v[i], v[j]); depth += N + 6; out.put(d, tol(s)); depth -= N + 6; break; }
            case MATVEC: {
                mul(sc(a), m[i], v[j], sc(b), v[r]); std::vector<LD> s(N);
                for (size_t p = 0; p < N; ++p) { s[p] = mag(sc(b)) * sv[r][p]; for (size_t q = 0; q < N; ++q) s[p] += mag(sc(a)) * sm[i][p * N + q] * sv[j][q]; }
                sv[r] = s; depth += N + 16; break; }
            case APPLY: {
                v[r] = m[i] * v[j]; std::vector<LD> s(N, 0);
                for (size_t p = 0; p < N; ++p) for (size_t q = 0; q < N; ++q) s[p] += sm[i][p * N + q] * sv[j][q];
                sv[r] = s; depth += N + 10; break; }
            case MADD: add(m[i], m[j], m[r]); for (size_t q = 0; q < N * N; ++q) sm[r][q] = sm[i][q] + sm[j][q]; depth += 1; break;
            case MSUB: sub(m[i], m[j], m[r]); for (size_t q = 0; q < N * N; ++q) sm[r][q] = sm[i][q] + sm[j][q]; depth += 1; break;
            case MSCALE: scale(sc(a), m[r]); for (auto& x: sm[r]) x *= mag(sc(a)); depth += 6; break;
            case MMUL: case MPROD: {
                T al = k == MMUL ? sc(a) : T(1), be = k == MMUL ? sc(b) : T(0);
                if (k == MMUL) mul(al, m[i], m[j], be, m[r]); else m[r] = m[i] * m[j];
                std::vector<LD> s(N * N);
                for (size_t p = 0; p < N; ++p) for (size_t q = 0; q < N; ++q) { LD x = mag(be) * sm[r][p * N + q]; for (size_t w = 0; w < N; ++w) x += mag(al) * sm[i][p * N + w] * sm[j][w * N + q]; s[p * N + q] = x; }
                sm[r] = s; depth += N + 16; break; }
        }
    }
    void finish() {
        for (int k = 0; k < NV; ++k) for (size_t q = 0; q < n; ++q) out.put(v[k][q], tol(sv[k][q]));
        for (int k = 0; k < NM; ++k) for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) out.put(m[k](p, q), tol(sm[k][p * n + q]));
        for (int k = 0; k < NV; ++k) { LD s = 0; for (LD x: sv[k]) s += x * x; out.put(v[k].norm2(), (4 * depth + n + 8) * 4 * E() * std::sqrt(s)); }
    }
};
template<class VX, class MX> static void history(const int* p, int len, Buf& out) {
    Regs<VX, MX> r((size_t)p[0], p[1], out);
    for (int k = 2; k < len; ++k) r.step(ops()[p[k]]);
    r.finish();
}

// ---------------------------------------------------------------- single operations on every size
static T scal(int k) { return mc::scalar<T>(k); }
static void vec1(const int* p, Buf& o) {       // n, other length, pattern, op, scalar, alias
    size_t n = p[0], m = p[1]; int pat = p[2], op = p[3], k = p[4], al = p[5]; T s = scal(k);
    V a = mc::vals<T>(pat, n, 1), b = mc::vals<T>(pat, m, 2);
    DV x(a), y(b), r(mc::vals<T>(0, n, 3)); const bool ex = pat == 0 && mc::dyadic_scalar(k);
    const DV& w = al == 1 ? x : y;             // second operand
    auto put = [&](const DV& z, LD c, bool two) {
        o.code((int)z.size());
        for (size_t i = 0; i < z.size(); ++i) { LD sc = 0; if (i < n) sc += mag(a[i]); if (i < m) sc += mag(b[i]); if (two) sc *= 1 + mag(s); o.put(z[i], ex ? 0 : c * E() * sc); }
    };
    try {
        switch (op) {
            case 0: add(x, w, r); put(r, 2, false); break;
            case 1: sub(x, w, r); put(r, 2, false); break;
            case 2: if (al == 1) { axpy(s, x, x); put(x, 16, true); } else { axpy(s, x, y); put(y, 16, true); } break;
            case 3: scale(s, x); put(x, 16, true); break;
            case 4: { LD sc = 0; for (size_t i = 0; i < n && i < m; ++i) sc += mag(a[i]) * mag(al == 1 ? a[i] : b[i]); o.put(dot(x, w), ex && n < 4200 ? 0 : (n + 8) * E() * sc); break; }
            case 5: { LD q = 0; for (auto& t: a) q += mag(t) * mag(t); o.put(x.norm2(), ((n + 8) * 4 * E() * std::sqrt(q))); break; }
            case 6: neg(x, r); put(r, 0, false); break;
            case 7: put(x + w, 2, false); break;
            case 8: put(x - w, 2, false); break;
            case 9: add(x, y, x); put(x, 2, false); break;
            case 10: sub(y, x, y); put(y, 2, false); break;
            case 11: put(scaled(s, x), 16, true); break;
        }
    } catch (const std::exception&) { o.code(-1); put(x, 0, false); put(y, 0, false); }
}
static Plain dense(int pat, size_t n, size_t m, int salt) { return pmat(pat, n, m, salt); }
static void matvec1(const int* p, Buf& o) {    // n, m, pattern, alpha, beta, alias
    size_t n = p[0], m = p[1]; int pat = p[2]; T al = scal(p[3]), be = scal(p[4]); const bool ex = pat == 0 && mc::dyadic_scalar(p[3]) && mc::dyadic_scalar(p[4]) && m < 60;
    Plain a = dense(pat, n, m, 1); V x = mc::vals<T>(pat, m, 2), y = mc::vals<T>(pat, n, 3); DM A = mkmat<DM>(a); DV X(x), Y(y); const bool alias = p[5] && n == m;
    if (alias) { mul(al, A, X, be, X); } else mul(al, A, X, be, Y);
    for (size_t i = 0; i < n; ++i) { LD s = mag(be) * mag(alias ? x[i] : y[i]); for (size_t j = 0; j < m; ++j) s += mag(al) * mag(a(i, j)) * mag(x[j]); o.put(alias ? X[i] : Y[i], ex ? 0 : (m + 16) * 2 * E() * s); }
}
static void matmat1(const int* p, Buf& o) {    // n, l, m, pattern, alpha, beta, alias (1: C is A, 2: C is B)
    size_t n = p[0], l = p[1], m = p[2]; int pat = p[3]; T al = scal(p[4]), be = scal(p[5]); int alias = p[6]; const bool ex = pat == 0 && mc::dyadic_scalar(p[4]) && mc::dyadic_scalar(p[5]) && l < 60;
    if (alias == 1 && l != m) alias = 0; if (alias == 2 && n != l) alias = 0;
    Plain a = dense(pat, n, l, 1), b = dense(pat, l, m, 2), c = alias == 1 ? a : alias == 2 ? b : dense(pat, n, m, 3);
    DM A = mkmat<DM>(a), B = mkmat<DM>(b), C = mkmat<DM>(c); DM& r = alias == 1 ? A : alias == 2 ? B : C;
    mul(al, A, B, be, r);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { LD s = mag(be) * mag(c(i, j)); for (size_t k = 0; k < l; ++k) s += mag(al) * mag(a(i, k)) * mag(b(k, j)); o.put(r(i, j), ex ? 0 : (l + 16) * 2 * E() * s); }
}
static void sparse1(const int* p, Buf& o) {    // kind, n, pattern, op, alpha, beta
    size_t n = p[1]; int pat = p[2], op = p[3]; T al = scal(p[4]), be = scal(p[5]); const bool ex = pat != 1 && mc::dyadic_scalar(p[4]) && mc::dyadic_scalar(p[5]);
    Mod m = pattern(p[0], n, pat, 1), q = pattern((p[0] + 1) % PATTERNS, n, pat, 2); COO c = coo(m, 4), d = coo(q, 1); CSR s(c); auto sh = s.shape();
    if (op == 0) {
        V x = mc::vals<T>(pat, sh.second, 3), y = mc::vals<T>(pat, sh.first, 4); DV X(x), Y(y); mul(al, s, X, be, Y);
        for (size_t i = 0; i < sh.first; ++i) { LD t = mag(be) * mag(y[i]); for (size_t j = 0; j < sh.second; ++j) t += mag(al) * mag(at(m, i, j)) * mag(x[j]); o.put(Y[i], ex ? 0 : (sh.second + 16) * 2 * E() * t); }
    } else if (op == 1) { c += d; auto z = c.shape(); o.code((int)z.first); o.code((int)z.second); for (size_t i = 0; i < z.first; ++i) for (size_t j = 0; j < z.second; ++j) o.put(c(i, j), 2 * E() * (mag(at(m, i, j)) + mag(at(q, i, j)))); }
    else { CSR t = al * s; o.code((int)t.nnz()); for (size_t i = 0; i < sh.first; ++i) for (size_t j = 0; j < sh.second; ++j) { o.put(t(i, j), 16 * E() * mag(al) * mag(at(m, i, j))); } }
}
#ifdef ELEM_REAL
// ---------------------------------------------------------------- solvers (real elements)
template<class X> static void put_sol(Buf& o, const X& x, size_t n, LD cond) {
    LD m = 0; for (size_t i = 0; i < n; ++i) m = std::max(m, std::fabs((LD)x[i]));
    for (size_t i = 0; i < n; ++i) o.raw((double)x[i], (double)(cond * n * E() * m));
}
template<class F> static void use(Buf& o, const F& f, size_t n, LD cond) {
    V b = mc::vals<T>(1, n, 8); DV v(b);
    put_sol(o, f.solve_linear(v), n, cond);
    f.solve_linear_mut(v); put_sol(o, v, n, cond);
    DM m = mkmat<DM>(pmat(1, n, 3, 9)); DM x = f.solve_linear(m);
    for (size_t c = 0; c < 3; ++c) { V col; for (size_t i = 0; i < n; ++i) col.push_back(x(i, c)); put_sol(o, col, n, cond); }
    f.solve_linear_mut(m);
    for (size_t c = 0; c < 3; ++c) { V col; for (size_t i = 0; i < n; ++i) col.push_back(m(i, c)); put_sol(o, col, n, cond); }
}
static DynHermiteMat<T> herm(const Plain& a) { V l; for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j <= i; ++j) l.push_back(a(i, j)); return DynHermiteMat<T>(a.n, std::move(l)); }
static void chol(Buf& o, const Plain& a, int which, bool only_outcome, LD cond) {
    try {
        if (which == 0) { DynCholeskyFactorization<T> f(mkmat<DM>(a)); o.code(1); if (!only_outcome) { use(o, f, a.n, cond); for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j <= i; ++j) o.raw((double)f.factor_mat()(i, j), (double)(cond * a.n * E() * std::sqrt(std::fabs((LD)a(i, i)) + 1))); } }
        else if (which == 1) { DynTriCholeskyFactorization<T> f(herm(a)); o.code(1); if (!only_outcome) use(o, f, a.n, cond); }
        else { DynModCholeskyFactorization<T> f(mkmat<DM>(a)); o.code(1); if (!only_outcome) use(o, f, a.n, cond); }
    } catch (const std::runtime_error&) { o.code(0); }
}
static void solver_(const int* p, Buf& o) {
    {
        int what = p[0];
        if (what == 0) { Plain a = spd(p[2], p[3], 1); if (p[4] < (int)a.n) a(p[4], p[4]) = -a(p[4], p[4]) - T(1); chol(o, a, p[1], p[4] < p[3], p[2] == 4 ? 1e6L : 1e4L); }
        else if (what == 1) {                          // integer 2x2 / 3x3: the outcome of the construction
            size_t n = p[2]; V e(n * n); int k = 3; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { e[i * n + j] = e[j * n + i] = (T)p[k]; ++k; }
            chol(o, Plain(n, n, e), p[1], true, 0);
        } else if (what == 2) {                        // tridiagonal
            size_t n = p[2]; V l, d, u; for (size_t i = 0; i + 1 < n; ++i) { l.push_back(mc::val<T>(1, i, p[1])); u.push_back(mc::val<T>(1, i, p[1] + 3)); }
            for (size_t i = 0; i < n; ++i) { LD s = (i ? std::fabs((LD)l[i - 1]) : 0) + (i + 1 < n ? std::fabs((LD)u[i]) : 0); d.push_back((T)((p[1] == 1 && i % 2 ? -1 : 1) * (1.5L * s + 0.25L))); }
            DynTriDiagMat<T> m(l, d, u); TriDiag<DynTriDiagMat<T>> s(m);
            for (int r = 0; r < 3; ++r) {
                DV b(mc::vals<T>(1, n, r)), x(V(n, T(0))); if (p[3]) { s.solve_linear(b, b); put_sol(o, b, n, 1e3L); } else { s.solve_linear(b, x); put_sol(o, x, n, 1e3L); }
                DM B = mkmat<DM>(pmat(1, n, 2, r)), X = mkmat<DM>(pmat(0, n, 2, 1)); DM& D = p[3] ? B : X; s.solve_linear(B, D);
                for (size_t c = 0; c < 2; ++c) { V col; for (size_t i = 0; i < n; ++i) col.push_back(D(i, c)); put_sol(o, col, n, 1e3L); }
            }
        } else {                                       // ILU / GMRES on a diagonally dominant sparse matrix
            size_t n = p[2]; Mod m = pattern(p[1], n, 1, 2); for (size_t i = 0; i < n; ++i) m[{i, i}] = (T)(2.0 * n + 1 + i % 3);
            for (auto& e: m) if (e.second == T(0)) e.second = T(0.5);
            DV b(mc::vals<T>(1, n, 4)); CSR a(coo(m));
            if (what == 3) { Ilu<T, CSR> f{CSR(a)}; DV x = f.solve(b); put_sol(o, x, n, 1e3L); }
            else { Gmres<T, CSR> g{CSR(a), (T)(sizeof(T) == 4 ? 1e-4 : 1e-11)}; DV x = g.solve(b); put_sol(o, x, n, sizeof(T) == 4 ? 1e4L : 1e6L); }
        }
    }
}
#else
static void solver_(const int*, Buf&) {}
#endif
extern "C" __attribute__((visibility("default"))) int run(const int* p, int len, double* v, double* t, int cap) {
    Buf o{v, t, cap};
    try {
        switch (p[0]) {
            case 0: history<DV, DM>(p + 1, len - 1, o); break;
            case 1:
                if (p[1] == 2) history<SV<2>, SM<2, 2>>(p + 1, len - 1, o); else if (p[1] == 3) history<SV<3>, SM<3, 3>>(p + 1, len - 1, o); else history<SV<17>, SM<17, 17>>(p + 1, len - 1, o); break;
            case 2: vec1(p + 1, o); break;
            case 3: matvec1(p + 1, o); break;
            case 4: matmat1(p + 1, o); break;
            case 5: sparse1(p + 1, o); break;
            case 6: solver_(p + 1, o); break;
        }
    } catch (const std::exception& e) { o.code(-99); }
    return o.n;
}
