// D02: y = a*A*x + b*y and A*x, every shape / operand mix / scalar pair / aliasing / content pattern.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

template<class A, class X, class Y> void update(Ch& ch, const Plain& pa, const V& vx, const V& vy, T al, T be) {
    A a = mkmat<A>(pa); X x = mkvec<X>(vx); Y y = mkvec<Y>(vy);
    ch.op();
    auto& r = mul(al, a, x, be, y);
    ch.check((const void*)&r == (const void*)&y, "the returned reference is not y");
    if (y.size() != pa.n) ch.fail("y has length %zu", (size_t)y.size());
    for (size_t i = 0; i < pa.n; ++i) {
        W s = mc::wide(be) * mc::wide(vy[i]); long double sc = mag(be) * mag(vy[i]);
        for (size_t k = 0; k < pa.m; ++k) { s += mc::wide(al) * mc::wide(pa(i, k)) * mc::wide(vx[k]); sc += mag(al) * mag(pa(i, k)) * mag(vx[k]); }
        mc::expect<T>(ch, "y", i, y[i], s, sc, pa.m + (CX ? 16 : 6));
    }
    expect_mat(ch, "the matrix", a, pa); expect_unchanged(ch, "x", x, vx);
}
template<class A, class X> void update_alias(Ch& ch, const Plain& pa, const V& vx, T al, T be) {
    A a = mkmat<A>(pa); X x = mkvec<X>(vx);
    ch.op();
    auto& r = mul(al, a, x, be, x);
    ch.check(&r == &x, "the returned reference is not y");
    if (x.size() != pa.n) ch.fail("y has length %zu", (size_t)x.size());
    for (size_t i = 0; i < pa.n; ++i) {
        W s = mc::wide(be) * mc::wide(vx[i]); long double sc = mag(be) * mag(vx[i]);
        for (size_t k = 0; k < pa.m; ++k) { s += mc::wide(al) * mc::wide(pa(i, k)) * mc::wide(vx[k]); sc += mag(al) * mag(pa(i, k)) * mag(vx[k]); }
        mc::expect<T>(ch, "x = y", i, x[i], s, sc, pa.m + (CX ? 16 : 6));
    }
    expect_mat(ch, "the matrix", a, pa);
}
template<class A, class X> void product(Ch& ch, const Plain& pa, const V& vx) {
    A a = mkmat<A>(pa); X x = mkvec<X>(vx);
    ch.op();
    auto y = a * x;
    if (y.size() != pa.n) ch.fail("the product has length %zu", (size_t)y.size());
    for (size_t i = 0; i < pa.n; ++i) {
        W s = 0; long double sc = 0;
        for (size_t k = 0; k < pa.m; ++k) { s += mc::wide(pa(i, k)) * mc::wide(vx[k]); sc += mag(pa(i, k)) * mag(vx[k]); }
        mc::expect<T>(ch, "product", i, y[i], s, sc, pa.m + (CX ? 16 : 6));
    }
    expect_mat(ch, "the matrix", a, pa); expect_unchanged(ch, "x", x, vx);
}
static const std::vector<int>& dims() { static const std::vector<int> a = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64}, b = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 130}; return mc::thorough() ? b : a; }
static void scalars(Ch& ch, int size, T& al, T& be) {
    if (size <= 5) { al = mc::scalar<T>(ch.pick(mc::NSCALAR)); be = mc::scalar<T>(ch.pick(mc::NSCALAR)); }
    else { al = mc::scalar<T>(ch.of({0, 2, 4, 6})); be = mc::scalar<T>(ch.of({0, 2, 3, 7})); }
}
// every pair of scalars at sizes where only some are combined with every content
FAMILY(scalar_pairs) {
    int n = ch.of({1, 6, 8, 16, 17, 33, 64}), m = ch.of({1, 7, 8, 16, 31, 65}); T al = mc::scalar<T>(ch.pick(mc::NSCALAR)), be = mc::scalar<T>(ch.pick(mc::NSCALAR)); int pat = ch.of({0, 1});
    if (!ch.go()) return;
    ch.note("%dx%d a=%s b=%s pattern %d", n, m, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    update<DM, DV, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), mc::vals<T>(pat, n, 3), al, be);
    if (n == m) update_alias<DM, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), al, be);
}
FAMILY(dyn_update) {
    int n = ch.of(dims()), m = ch.of(dims()); T al, be; scalars(ch, std::max(n, m), al, be); int pat = ch.pick(n * m > 300 ? 2 : mc::NPAT);
    if (!ch.go()) return;
    ch.note("%dx%d a=%s b=%s pattern %d", n, m, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    update<DM, DV, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), mc::vals<T>(pat, n, 3), al, be);
}
FAMILY(dyn_update_alias) {
    int n = ch.of(dims()); T al, be; scalars(ch, n, al, be); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("x=y, %dx%d a=%s b=%s pattern %d", n, n, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    update_alias<DM, DV>(ch, pmat(pat, n, n, 1), mc::vals<T>(pat, n, 2), al, be);
}
FAMILY(dyn_product) {
    int n = ch.of(dims()), m = ch.of(dims()); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("%dx%d product pattern %d", n, m, pat);
    product<DM, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2));
}
// past every plausible blocking or vector width
static const std::vector<int>& big() { static const std::vector<int> a = {1, 2, 31, 65, 100, 127, 128, 129, 257, 300, 513, 1000, 1025}, b = {3, 191, 193, 255, 256, 400, 511, 512, 600, 1023, 1024, 2049}; return mc::thorough() ? b : a; }
FAMILY(large_update) {
    int n = ch.of(big()), m = ch.of(big()), k = ch.pick(3), pat = ch.of({0, 1});
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {6, 7}, {2, 4}};
    ch.note("%dx%d scalars %d %d pattern %d", n, m, ks[k][0], ks[k][1], pat);
    update<DM, DV, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), mc::vals<T>(pat, n, 3), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (n == m) update_alias<DM, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (k == 0) product<DM, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2));
}
// zero matrices and vectors, wholly or in part, and rows and columns of very different magnitude
FAMILY(zeros_and_gradings) {
    int n = ch.of({1, 2, 3, 5, 9, 17, 33}), m = ch.of({1, 2, 4, 8, 16, 33}), za = ch.pick(ZEROS), zx = ch.of({0, 1, 5}), zy = ch.of({0, 1, 6}), g = ch.pick(GRADES), k = ch.pick(3);
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 0}, {6, 7}, {2, 4}};
    Plain a = graded(zeroed(pmat(1, n, m, 1), za), g, (g * 3) % GRADES); V x = zeroed(pmat(1, m, 1, 2), zx).e, y = zeroed(pmat(1, n, 1, 3), zy).e;
    update<DM, DV, DV>(ch, a, x, y, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (n == m) update_alias<DM, DV>(ch, a, x, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    product<DM, DV>(ch, a, x);
}
// tiny and huge scalars
FAMILY(scalar_magnitudes) {
    int n = ch.of({1, 2, 5, 17}), m = ch.of({1, 3, 8, 17}), ea = ch.range(-2, 2), eb = ch.range(-2, 2), pat = ch.of({0, 1, 4, 5});
    if (!ch.go()) return;
    const int h = mc::mag_exp<R>() / 2; T al = pow2_times(T(-3), ea * h), be = pow2_times(T(5), eb * h);
    update<DM, DV, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), mc::vals<T>(pat, n, 3), al, be);
    if (n == m) update_alias<DM, DV>(ch, pmat(pat, n, m, 1), mc::vals<T>(pat, m, 2), al, be);
}
// one non-zero element at every position of the matrix times an index vector
FAMILY(positions) {
    int n = 1 + ch.pick(mc::thorough() ? 14 : 9), m = 1 + ch.pick(mc::thorough() ? 14 : 9), p = ch.pick(n * m);
    if (!ch.go()) return;
    ch.note("%dx%d unit element %d", n, m, p);
    Plain a(n, m); a.e[p] = T(2); V x, y; for (int i = 0; i < m; ++i) x.push_back(T(i + 1)); for (int i = 0; i < n; ++i) y.push_back(T(10 * (i + 1)));
    update<DM, DV, DV>(ch, a, x, y, T(1), T(1)); product<DM, DV>(ch, a, x);
}
// matrices and vectors with structure that a short cut could look for, and the same with any one element off
FAMILY(structured_small) {
    int n = 1 + ch.pick(5), m = 1 + ch.pick(5), kind = ch.pick(STRUCTURES), off = ch.pick(n * m + 1), x = ch.of({0, 1, 12}), k = ch.pick(4);
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {0, 0}, {1, 1}, {3, 4}};
    ch.note("%dx%d structure %d, element %d off, vector %d, scalars %d %d", n, m, kind, off, x, ks[k][0], ks[k][1]);
    Plain a = structured(kind, n, m, 1); if (off < n * m) a.e[off] += cplx(3, 1);
    V vx = shaped(x, m, 2), vy = shaped(x == 1 ? 9 : 0, n, 3); const T al = mc::scalar<T>(ks[k][0]), be = mc::scalar<T>(ks[k][1]);
    update<DM, DV, DV>(ch, a, vx, vy, al, be);
    if (n == m) update_alias<DM, DV>(ch, a, vx, al, be);
    if (k == 0) product<DM, DV>(ch, a, vx);
}
FAMILY(structured) {
    int n = ch.of({6, 8, 9, 16, 17, 33, 64}), m = ch.of({6, 8, 9, 16, 17, 33, 64}), kind = ch.pick(STRUCTURES), off = ch.pick(FLAWS), x = ch.pick(SHAPED), k = ch.pick(2);
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {4, 3}};
    ch.note("%dx%d structure %d, flaw %d, vector %d", n, m, kind, off, x);
    Plain a = flawed(structured(kind, n, m, 1), off); V vx = shaped(x, m, 2), vy = shaped((x + 5) % SHAPED, n, 3); const T al = mc::scalar<T>(ks[k][0]), be = mc::scalar<T>(ks[k][1]);
    update<DM, DV, DV>(ch, a, vx, vy, al, be);
    if (n == m) update_alias<DM, DV>(ch, a, vx, al, be);
    if (k == 0) product<DM, DV>(ch, a, vx);
}
FAMILY(sized) {
    auto s = ch.of(sized_shapes()); int mix = ch.pick(6); T al = T(1), be = T(0); if (mix < 4) scalars(ch, std::max(s.first, s.second), al, be); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("fixed-size %dx%d mix %d a=%s b=%s pattern %d", s.first, s.second, mix, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    at_shape(s, [&]<size_t N, size_t M>() {
        Plain a = pmat(pat, N, M, 4); V x = mc::vals<T>(pat, M, 5), y = mc::vals<T>(pat, N, 6);
        switch (mix) {
            case 0: update<SM<N, M>, SV<M>, SV<N>>(ch, a, x, y, al, be); break;
            case 1: update<SM<N, M>, DV, SV<N>>(ch, a, x, y, al, be); break;
            case 2: update<DM, SV<M>, DV>(ch, a, x, y, al, be); break;
            case 3: if constexpr (N == M) update_alias<SM<N, N>, SV<N>>(ch, a, x, al, be); break;
            case 4: product<SM<N, M>, SV<M>>(ch, a, x); product<SM<N, M>, DV>(ch, a, x); break;
            case 5: product<DM, SV<M>>(ch, a, x); break;
        }
    });
}
// more than 2^16 rows, columns or elements
FAMILY(bulk) {
    static const std::vector<std::pair<int, int>> sh = {{70000, 1}, {1, 70000}, {65537, 3}, {3, 65537}, {40000, 2}, {2, 40000}, {300, 300}, {257, 401}, {10000, 17}, {17, 10000}};
    auto s = ch.of(sh); int n = s.first, m = s.second, k = ch.pick(4), pat = ch.of({0, 1});
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {6, 7}, {2, 4}, {0, 0}};
    ch.note("%dx%d scalars %d %d pattern %d", n, m, ks[k][0], ks[k][1], pat);
    Plain a = pmat(pat, n, m, 1); V x = mc::vals<T>(pat, m, 2);
    update<DM, DV, DV>(ch, a, x, mc::vals<T>(pat, n, 3), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (n == m) update_alias<DM, DV>(ch, a, x, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (k == 0) product<DM, DV>(ch, a, x);
}
