// Helpers of the factorisation and solver harnesses (real elements).
#pragma once
#include "mats.hpp"
#include <numeric>
#include <stdexcept>
using mc::Ch;
using LD = long double;
using LM = std::vector<LD>;                 // n x n, row-major

inline LM wide_of(const Plain& p) { LM r; for (auto& x: p.e) r.push_back((LD)x); return r; }

// ---- exact arithmetic on small integer matrices: leading principal minors
inline std::vector<long long> leading_minors(const std::vector<int>& a, int n) {
    std::vector<long long> m;
    for (int k = 1; k <= n; ++k) {
        // fraction-free (Bareiss) elimination of the leading k x k block, with row exchanges (sign tracked)
        std::vector<__int128> b(k * k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) b[i * k + j] = a[i * n + j];
        __int128 prev = 1; int sign = 1; bool zero = false;
        for (int p = 0; p + 1 < k && !zero; ++p) {
            int r = p; while (r < k && b[r * k + p] == 0) ++r;
            if (r == k) { zero = true; break; }
            if (r != p) { for (int j = 0; j < k; ++j) std::swap(b[r * k + j], b[p * k + j]); sign = -sign; }
            for (int i = p + 1; i < k; ++i) for (int j = p + 1; j < k; ++j) b[i * k + j] = (b[i * k + j] * b[p * k + p] - b[i * k + p] * b[p * k + j]) / prev;
            prev = b[p * k + p];
        }
        m.push_back(zero ? 0 : (long long)(sign * b[k * k - 1]));
    }
    return m;
}
inline bool pow2(LD x) { if (x == 0) return false; int e; LD f = std::frexp(std::fabs(x), &e); return f == 0.5L; }
inline bool pow4(LD x) { if (x <= 0) return false; int e; LD f = std::frexp(x, &e); return f == 0.5L && (e - 1) % 2 == 0; }

// `under`: what an intermediate that underflows can be multiplied by, beyond S
// is |b - A x| <= k eps (S |x| + |b|) in every component?   (componentwise backward stability with respect to S >= |A|)
template<class X, class B> void residual(Ch& ch, const char* what, const LM& A, const LM& S, size_t n, size_t nrhs, X&& x, B&& b, LD k, LD under = 0) {
    for (size_t c = 0; c < nrhs; ++c) for (size_t i = 0; i < n; ++i) {
        LD r = b(i, c), s = std::fabs((LD)b(i, c)), u = 2 + under;
        for (size_t j = 0; j < n; ++j) { r -= A[i * n + j] * (LD)x(j, c); s += S[i * n + j] * std::fabs((LD)x(j, c)); u += S[i * n + j]; }
        if (mc::me()) mc::me()->checks++;
        const LD tol = k * mc::eps<T>() * s + k * u * std::numeric_limits<T>::denorm_min();      // rounding and underflow
        if (!(std::fabs(r) <= tol)) ch.fail("%s: equation %zu of right-hand side %zu is off by %Lg, allowed rounding %Lg (unknown %zu is %Lg)", what, i, c, r, tol, i, (LD)x(i, c));
        ch.out((double)x(i, c));
    }
}
// S = |L| |D|^-1.. given as product of absolute factors
inline LM absprod(const LM& l, const LM& u, size_t n) {
    LM s(n * n, 0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) s[i * n + j] += std::fabs(l[i * n + k]) * std::fabs(u[k * n + j]);
    return s;
}
inline LM prod(const LM& l, const LM& u, size_t n) {
    LM s(n * n, 0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) s[i * n + j] += l[i * n + k] * u[k * n + j];
    return s;
}

// every kind of solve call of a factorisation, each judged by its residual.  `which` selects one of the call forms.
constexpr int SOLVE_FORMS = 6;
template<size_t N, size_t K, class F> void solve_sized(Ch& ch, const F& f, const LM& A, const LM& S, LD k, int pat, int salt, bool mat, int zero = 0) {
    if (!mat) {
        V b = zeroed(pmat(pat, N, 1, salt), zero).e; SV<N> v = mkvec<SV<N>>(b);
        auto bb = [&](size_t i, size_t) { return b[i]; };
        ch.op(2);
        auto x = f.solve_linear(v);
        residual(ch, "solve_linear(fixed-size vector)", A, S, N, 1, [&](size_t i, size_t) { return x[i]; }, bb, k);
        expect_unchanged(ch, "right-hand side of solve_linear", v, b);
        SV<N>* r = &f.solve_linear_mut(v); if (r != &v) ch.fail("solve_linear_mut does not return its argument");
        residual(ch, "solve_linear_mut(fixed-size vector)", A, S, N, 1, [&](size_t i, size_t) { return v[i]; }, bb, k);
    } else {
        Plain b = zeroed(pmat(pat, N, K, salt), zero); auto m = mkmat<SM<N, K>>(b);
        auto bb = [&](size_t i, size_t j) { return b(i, j); };
        ch.op(2);
        auto x = f.solve_linear(m);
        residual(ch, "solve_linear(fixed-size matrix)", A, S, N, K, [&](size_t i, size_t j) { return x(i, j); }, bb, k);
        expect_mat(ch, "right-hand sides of solve_linear", m, b);
        auto* r = &f.solve_linear_mut(m); if (r != &m) ch.fail("solve_linear_mut does not return its argument");
        residual(ch, "solve_linear_mut(fixed-size matrix)", A, S, N, K, [&](size_t i, size_t j) { return m(i, j); }, bb, k);
    }
}
#define SOLVE_N 1, 2, 3, 4, 5, 6, 8
// any number of right-hand sides
constexpr int RHS_COUNTS = 17;
inline size_t rhs_count(int i) { static const size_t c[RHS_COUNTS] = {4, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65}; return c[i]; }
template<class F> void solve_columns(Ch& ch, const F& f, const LM& A, const LM& S, size_t n, size_t c, LD k, int pat, int salt, int zero) {
    Plain b = zeroed(pmat(pat, n, c, salt), zero); DM m = mkmat<DM>(b);
    auto bb = [&](size_t i, size_t j) { return b(i, j); };
    ch.op(2);
    auto x = f.solve_linear(m);
    if (x.shape() != m.shape()) ch.fail("solution has shape %zux%zu", x.shape().first, x.shape().second);
    residual(ch, "solve_linear(matrix)", A, S, n, c, [&](size_t i, size_t j) { return x(i, j); }, bb, k);
    expect_mat(ch, "right-hand sides of solve_linear", m, b);
    f.solve_linear_mut(m);
    residual(ch, "solve_linear_mut(matrix)", A, S, n, c, [&](size_t i, size_t j) { return m(i, j); }, bb, k);
}
template<class F> void solve_columns_sized(Ch& ch, const F& f, const LM& A, const LM& S, size_t n, LD k, int pat, int salt) {
    if (n == 2) { solve_sized<2, 4>(ch, f, A, S, k, pat, salt, true); solve_sized<2, 8>(ch, f, A, S, k, pat, salt, true); solve_sized<2, 9>(ch, f, A, S, k, pat, salt, true); solve_sized<2, 17>(ch, f, A, S, k, pat, salt, true); }
    if (n == 5) { solve_sized<5, 4>(ch, f, A, S, k, pat, salt, true); solve_sized<5, 7>(ch, f, A, S, k, pat, salt, true); solve_sized<5, 16>(ch, f, A, S, k, pat, salt, true); solve_sized<5, 33>(ch, f, A, S, k, pat, salt, true); }
}
// the right-hand side of a chosen solution: small integers, zero in the positions of one parity, one end or all but one
inline V planted(const LM& A, size_t n, int how) {
    V b; 
    for (size_t i = 0; i < n; ++i) {
        LD s = 0;
        for (size_t j = 0; j < n; ++j) if (how == 0 ? j % 2 == 0 : how == 1 ? j % 2 == 1 : how == 2 ? j == 0 : how == 3 ? j + 1 == n : j == n / 2) s += A[i * n + j] * ((LD)(j % 3) - 3);
        b.push_back((T)s);
    }
    return b;
}
template<class F> void solves(Ch& ch, const F& f, const LM& A, const LM& S, size_t n, LD k, int pat, int salt) {
    for (int zero: {0, 1 + salt % 2, 5 + salt % 2, 100 + salt % 5, 100 + (salt + 2) % 5}) {   // dynamic vector
        V b = zero >= 100 ? planted(A, n, zero - 100) : zeroed(pmat(pat, n, 1, salt), zero).e; DV v(b);
        auto bb = [&](size_t i, size_t) { return b[i]; };
        ch.op(2);
        auto x = f.solve_linear(v);
        if (x.size() != n) ch.fail("solution has length %zu", (size_t)x.size());
        residual(ch, "solve_linear(vector)", A, S, n, 1, [&](size_t i, size_t) { return x[i]; }, bb, k);
        expect_unchanged(ch, "right-hand side of solve_linear", v, b);
        DV* r = &f.solve_linear_mut(v); if (r != &v) ch.fail("solve_linear_mut does not return its argument");
        residual(ch, "solve_linear_mut(vector)", A, S, n, 1, [&](size_t i, size_t) { return v[i]; }, bb, k);
    }
    for (size_t c: {1, 2, 3, 5}) {  // dynamic matrix
        Plain b = zeroed(pmat(pat, n, c, salt + (int)c), c < 2 ? 0 : (salt + (int)c) % ZEROS); DM m = mkmat<DM>(b);
        auto bb = [&](size_t i, size_t j) { return b(i, j); };
        ch.op(2);
        auto x = f.solve_linear(m);
        if (x.shape() != m.shape()) ch.fail("solution has shape %zux%zu", x.shape().first, x.shape().second);
        residual(ch, "solve_linear(matrix)", A, S, n, c, [&](size_t i, size_t j) { return x(i, j); }, bb, k);
        expect_mat(ch, "right-hand sides of solve_linear", m, b);
        DM* r = &f.solve_linear_mut(m); if (r != &m) ch.fail("solve_linear_mut does not return its argument");
        residual(ch, "solve_linear_mut(matrix)", A, S, n, c, [&](size_t i, size_t j) { return m(i, j); }, bb, k);
    }
    auto all = [&]<size_t N>() {
        solve_sized<N, 1>(ch, f, A, S, k, pat, salt + 6, false); solve_sized<N, 1>(ch, f, A, S, k, pat, salt + 6, false, 1); solve_sized<N, 2>(ch, f, A, S, k, pat, salt + 6, true, 1 + salt % (ZEROS - 1));
        solve_sized<N, 1>(ch, f, A, S, k, pat, salt + 7, true);
        solve_sized<N, 2>(ch, f, A, S, k, pat, salt + 8, true);
        solve_sized<N, 3>(ch, f, A, S, k, pat, salt + 9, true);
    };
    for (size_t m: {SOLVE_N}) if (m == n) mc::dispatch<SOLVE_N>(ch, n, all);
}

// ---- symmetric matrices of any size: positive definite (kind 0..6) and indefinite with non-zero minors (7..)
inline Plain spd(int kind, size_t n, int salt) {
    Plain p(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD v = 0; const LD lo = std::min(i, j) + 1, hi = std::max(i, j) + 1;
        switch (kind) {
            case 0: v = i == j ? 2 : (hi - lo == 1 ? -1 : 0); break;                                   // discrete Laplacian
            case 1: v = lo; break;                                                                     // min(i, j)
            case 2: v = lo / hi; break;                                                                // Lehmer
            case 3: v = i == j ? (LD)n + 1 : 0.5L * mc::val<double>(1, (size_t)(lo * 64 + hi), salt); break;   // diagonally dominant, generic
            case 4: v = (i == j ? 4 : 1) * std::ldexp(1.0L, (int)((i % 3) * 2 + (j % 3) * 2)); break;   // badly scaled
            case 5: v = i == j ? (LD)(i % 3 + 1) : 0; break;                                           // diagonal
            case 6: v = i == j ? 1 : (hi - lo == (LD)n - 1 ? 0.5L : 0); break;                          // corners
        }
        p(i, j) = (T)v;
    }
    return p;
}
constexpr int SPD = 7;
static const std::vector<int>& larger_sizes() { static const std::vector<int> a = {25, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129}, b = {41, 48, 50, 70, 80, 96, 99, 150, 191, 192, 193, 255, 256, 257}; return mc::thorough() ? b : a; }

// every 2x2 or 3x3 matrix of the lists, scaled exactly: what holds for a matrix holds for D A D

