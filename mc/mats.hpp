// Dense matrices as plain data, and lists of shapes.
#pragma once
#include "lib.hpp"

using DM = lalib::DynMat<T>;
using DV = lalib::DynVec<T>;
template<size_t N> using SV = lalib::SizedVec<T, N>;
template<size_t N, size_t M> using SM = lalib::SizedMat<T, N, M>;

struct Plain {                       // row-major reference matrix
    size_t n = 0, m = 0; V e;
    Plain(size_t n_, size_t m_, V v): n(n_), m(m_), e(std::move(v)) {}
    Plain(size_t n_, size_t m_): n(n_), m(m_), e(n_ * m_, T(0)) {}
    const T& operator()(size_t i, size_t j) const { return e[i * m + j]; }
    T& operator()(size_t i, size_t j) { return e[i * m + j]; }
};
template<class X> struct MatTraits { static X make(const Plain& p) { return X(p.n, p.m, p.e); } };
template<size_t N, size_t M> struct MatTraits<SM<N, M>> { static SM<N, M> make(const Plain& p) { return SM<N, M>(p.e); } };
template<class X> X mkmat(const Plain& p) { return MatTraits<X>::make(p); }

template<class X> void expect_mat(mc::Ch& ch, const char* what, const X& x, const Plain& p) {
    auto s = x.shape();
    if (s.first != p.n || s.second != p.m) ch.fail("%s: shape is %zux%zu, expected %zux%zu", what, s.first, s.second, p.n, p.m);
    for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) mc::expect_same<T>(ch, what, i * p.m + j, x(i, j), p(i, j));
}
// exact scalings of rows and columns by powers of two: tiny, huge, ascending, descending, alternating, only the last, only the first
constexpr int GRADES = 8;                // 0 is none
inline int grade(int kind, size_t i, size_t n) {
    const int h = mc::mag_exp<R>() / 2;
    switch (kind) {
        case 1: return -h;
        case 2: return h;
        case 3: return n > 1 ? -h + (int)(2 * h * i / (n - 1)) : -h;
        case 4: return n > 1 ? h - (int)(2 * h * i / (n - 1)) : h;
        case 5: return i % 2 ? h : -h;
        case 6: return i + 1 == n ? -h : 0;
        case 7: return i == 0 ? -h : 0;
    }
    return 0;
}
inline T pow2_times(T x, int e) { using RR = mc::El<T>::R; return x * T((RR)std::ldexp(1.0, e)); }
inline Plain graded(Plain p, int rk, int ck) { for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) p(i, j) = pow2_times(p(i, j), grade(rk, i, p.n) + grade(ck, j, p.m)); return p; }
// partly or wholly zero: 0 as it is, 1 all zero, 2 zero but one, 3 first column zero, 4 last column zero, 5 first half of the rows zero, 6 last half zero
constexpr int ZEROS = 7;
inline Plain zeroed(Plain p, int kind) {
    for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j)
        if (kind == 1 || (kind == 2 && i != p.n / 2) || (kind == 3 && j == 0) || (kind == 4 && j + 1 == p.m) || (kind == 5 && 2 * i < p.n) || (kind == 6 && 2 * i + 1 >= p.n)) p(i, j) = T(0);
    return p;
}
// long doubles too: a rescaled matrix
inline Plain uniformly(Plain p, int e) { for (auto& x: p.e) x = pow2_times(x, e); return p; }
inline Plain pmat(int pat, size_t n, size_t m, int salt) { return Plain(n, m, mc::vals<T>(pat, n * m, salt)); }
// matrices with structure, all dyadic
constexpr int STRUCTURES = 20;
inline Plain structured(int kind, size_t n, size_t m, int salt) {
    Plain p(n, m); auto g = [&](size_t k) { return mc::val<T>(0, k, salt); };
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        const size_t lo = std::min(i, j), hi = std::max(i, j), far = hi - lo; T v(0);
        switch (kind) {
            case 0: v = T(i == j); break;                                                          // identity
            case 1: if (i == j) v = g(i); break;                                                   // diagonal
            case 2: v = g(lo * 37 + hi); break;                                                    // symmetric
            case 3: if (i != j) v = i < j ? g(lo * 37 + hi) : -g(lo * 37 + hi); break;             // antisymmetric
            case 4: if (i <= j) v = g(i * m + j); break;                                           // upper triangular
            case 5: if (i >= j) v = g(i * m + j); break;                                           // lower triangular
            case 6: v = cplx(2, 1); break;                                                         // constant
            case 7: v = g(j); break;                                                               // equal rows
            case 8: v = g(i); break;                                                               // equal columns
            case 9: v = T(i + j + 1 == std::max(n, m)); break;                                     // reversal
            case 10: if (far <= 1) v = g(i * m + j); break;                                        // tridiagonal
            case 11: v = g(lo * 37 + hi); v = i > j ? conjugate(v) : i == j ? (v + conjugate(v)) / T(2) : v; break;   // Hermitian
            case 12: v = T((R)((int)(i % 5) - 2)) * T((R)((int)(j % 7) - 3)); break;               // rank one
            case 13: if (i / 2 == j / 2) v = g(i * m + j); break;                                  // blocks of two
            case 14: v = g(i + m - j); break;                                                      // Toeplitz
            case 15: v = g((i + m - j % m) % m); break;                                            // circulant
            case 16: v = T(i == j ? -1 : 0); break;                                                // minus identity
            case 17: if (i == 0 || j == 0 || i == j) v = g(i * m + j); break;                      // arrow
            case 18: if (i < j) v = g(i * m + j); else if (i == j) v = T(1); break;                // unit upper triangular
            case 19: v = T((R)((int)((i + 2 * j) % 5) - 2)); break;                                // real even when the element type is complex
        }
        p(i, j) = v;
    }
    return p;
}
inline Plain transposed(const Plain& p) { Plain t(p.m, p.n); for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) t(j, i) = p(i, j); return t; }
// one element off: k-th of none, first, last, top right, bottom left, a middle one, a subdiagonal one, the centre of the diagonal
constexpr int FLAWS = 8;
inline Plain flawed(Plain p, int k) {
    const size_t n = p.n, m = p.m; if (!k || !n || !m) return p;
    const size_t i = k == 1 || k == 3 ? 0 : k == 2 || k == 4 ? n - 1 : k == 6 ? std::min<size_t>(n - 1, n / 2 + 1) : n / 2, j = k == 1 || k == 4 ? 0 : k == 2 || k == 3 ? m - 1 : k == 5 ? m / 3 : k == 6 ? std::min(m - 1, n / 2) : std::min(m - 1, n / 2);
    p(i, j) += cplx(3, 1); return p;
}

#define SHAPES(X) X(1,1) X(1,2) X(2,1) X(2,2) X(2,3) X(3,2) X(3,3) X(4,4) X(1,7) X(7,1) X(5,8) X(8,5) X(16,16) X(17,3) X(3,17) X(9,20) X(2,0) X(0,2)
inline std::vector<std::pair<int, int>> sized_shapes() {
    std::vector<std::pair<int, int>> r;
#define P(a, b) r.push_back({a, b});
    SHAPES(P)
#undef P
    return r;
}
// f.template operator()<N, M>()
template<class F> void at_shape(std::pair<int, int> s, F&& f) {
#define P(a, b) if (s.first == a && s.second == b) { f.template operator()<a, b>(); return; }
    SHAPES(P)
#undef P
    _exit(97);
}
