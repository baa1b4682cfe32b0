// Helpers shared by the harnesses: building library objects from plain data and comparing them with models.
#pragma once
#include "mc.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include <array>
#include <complex>
#include <vector>

#ifdef ELEM
using T = ELEM;
#else
using T = double;
#endif
using W = mc::Wide<T>;
using R = mc::El<T>::R;
constexpr bool CX = mc::El<T>::cx;
using V = std::vector<T>;

template<class X> struct is_dynvec : std::false_type {};
template<class U> struct is_dynvec<lalib::DynVec<U>> : std::true_type {};

template<class X> X mkvec(const V& v) { return X(v); }

// every vector length at which the kernels could behave differently, plus plenty of others
inline const std::vector<size_t>& dyn_sizes() {
    static const std::vector<size_t> s = [] {
        std::vector<size_t> r;
        for (size_t i = 0; i <= 70; ++i) r.push_back(i);
        for (size_t i: {79, 80, 81, 95, 96, 97, 99, 100, 101, 112, 113, 120, 121, 127, 128, 129, 130, 143, 144, 145, 160, 191, 192, 193, 200, 250, 255, 256, 257, 300, 383, 384, 385, 500, 511, 512, 513, 600, 640, 767, 768, 769,
                        1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001, 16384, 20000, 32769, 65535, 65536, 65537, 100003}) r.push_back(i);
        if (mc::thorough()) {
            for (size_t i = 71; i <= 600; ++i) r.push_back(i);
            for (size_t i: {131071, 131072, 131073, 200000, 262143, 262145, 524289, 1000003}) r.push_back(i);
        }
        return r;
    }();
    return s;
}
// longer than any threshold a kernel is likely to have; small integers, so that sums of products are exact in every element type
inline const std::vector<size_t>& huge_sizes() { static const std::vector<size_t> q = {131073, 262144, 262147, 1048577}, t = {120000, 131071, 131072, 131073, 200001, 262143, 262144, 262145, 300007, 524287, 524288, 524291, 1000000, 1048575, 1048576, 1048577, 1500001}; return mc::thorough() ? t : q; }
template<class U = T> U small_int(size_t i, int salt) { using RR = typename mc::El<U>::R; uint64_t z = (i * 2 + salt) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; if constexpr (mc::El<U>::cx) return U((RR)((int)(z % 5) - 2), (RR)((int)((z >> 8) % 3) - 1)); else return (RR)((int)(z % 5) - 2); }
inline V small_ints(size_t n, int salt) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = small_int(i, salt); return v; }
#define SIZED_LIST 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 257
inline const std::vector<size_t>& sized_sizes() { static const std::vector<size_t> s = {SIZED_LIST}; return s; }

template<class X> void expect_unchanged(mc::Ch& ch, const char* what, const X& x, const V& v) {
    if (x.size() != v.size()) ch.fail("%s: length changed from %zu to %zu", what, v.size(), (size_t)x.size());
    for (size_t i = 0; i < v.size(); ++i) mc::expect_same<T>(ch, what, i, x[i], v[i]);
}
inline long double mag(const T& x) { return std::abs(mc::wide(x)); }
template<class U = T> U cplx(double re, double im) { using RR = typename mc::El<U>::R; if constexpr (mc::El<U>::cx) return U((RR)re, (RR)im); else return (RR)re; }
template<class U = T> U conjugate(const U& x) { if constexpr (mc::El<U>::cx) return std::conj(x); else return x; }
// vectors with structure: 0 none, 1 ones, 2 first unit vector, 3 last unit vector, 4 every other component zero, 5 constant but for the last,
// 6 ascending, 7 palindrome, 8 alternating signs, 9 zero, 10 first half zero, 11 last half zero, 12 purely imaginary (complex)
constexpr int SHAPED = 13;
inline V shaped(int kind, size_t n, int salt = 0) {
    V v = mc::vals<T>(0, n, salt);
    for (size_t i = 0; i < n; ++i) switch (kind) {
        case 1: v[i] = T(1); break;
        case 2: v[i] = T(i == 0 ? 1 : 0); break;
        case 3: v[i] = T(i + 1 == n ? 1 : 0); break;
        case 4: if (i % 2) v[i] = T(0); break;
        case 5: v[i] = i + 1 == n ? T(5) : cplx(3, 1); break;
        case 6: v[i] = T((R)(i % 512 + 1)); break;
        case 7: v[i] = v[std::min(i, n - 1 - i)]; break;
        case 8: v[i] = T(i % 2 ? -1 : 1); break;
        case 9: v[i] = T(0); break;
        case 10: if (2 * i < n) v[i] = T(0); break;
        case 11: if (2 * i >= n) v[i] = T(0); break;
        case 12: v[i] = cplx(0, (double)(i % 5) - 2.5); break;
    }
    return v;
}
