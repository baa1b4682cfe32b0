// D03: C = a*A*B + b*C and A*B, every shape / operand mix / scalar pair / aliasing / content pattern.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

static void expect_product(Ch& ch, const char* what, const auto& c, const Plain& a, const Plain& b, T al, T be, const Plain* pc) {
    auto s = c.shape();
    if (s.first != a.n || s.second != b.m) ch.fail("%s has shape %zux%zu", what, s.first, s.second);
    for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < b.m; ++j) {
        W v = 0; long double sc = 0;
        if (pc) { v = mc::wide(be) * mc::wide((*pc)(i, j)); sc = mag(be) * mag((*pc)(i, j)); }
        for (size_t k = 0; k < a.m; ++k) { v += mc::wide(al) * mc::wide(a(i, k)) * mc::wide(b(k, j)); sc += mag(al) * mag(a(i, k)) * mag(b(k, j)); }
        mc::expect<T>(ch, what, i * b.m + j, c(i, j), v, sc, a.m + (CX ? 16 : 6));
    }
}
template<class A, class B, class C> void update(Ch& ch, const Plain& pa, const Plain& pb, const Plain& pc, T al, T be) {
    A a = mkmat<A>(pa); B b = mkmat<B>(pb); C c = mkmat<C>(pc);
    ch.op();
    auto& r = mul(al, a, b, be, c);
    ch.check((const void*)&r == (const void*)&c, "the returned reference is not C");
    expect_product(ch, "C", c, pa, pb, al, be, &pc);
    expect_mat(ch, "A", a, pa); expect_mat(ch, "B", b, pb);
}
// 1: C is A, 2: C is B, 3: A is B, 4: all the same
template<class A> void update_alias(Ch& ch, const Plain& p, const Plain& q, T al, T be, int alias) {
    A a = mkmat<A>(p), b = mkmat<A>(q);
    ch.op();
    if (alias == 1) { auto& r = mul(al, a, b, be, a); ch.check(&r == &a, "the returned reference is not C"); expect_product(ch, "C = A", a, p, q, al, be, &p); expect_mat(ch, "B", b, q); }
    else if (alias == 2) { mul(al, a, b, be, b); expect_product(ch, "C = B", b, p, q, al, be, &q); expect_mat(ch, "A", a, p); }
    else if (alias == 3) { mul(al, a, a, be, b); expect_product(ch, "C", b, p, p, al, be, &q); expect_mat(ch, "A = B", a, p); }
    else { mul(al, a, a, be, a); expect_product(ch, "C = A = B", a, p, p, al, be, &p); }
}
template<class A, class B> void product(Ch& ch, const Plain& pa, const Plain& pb, bool same) {
    A a = mkmat<A>(pa); B b = mkmat<B>(pb);
    ch.op();
    if constexpr (std::is_same_v<A, B>) if (same) { auto c = a * a; expect_product(ch, "product", c, pa, pa, T(1), T(0), nullptr); expect_mat(ch, "A", a, pa); return; }
    auto c = a * b;
    expect_product(ch, "product", c, pa, pb, T(1), T(0), nullptr);
    expect_mat(ch, "A", a, pa); expect_mat(ch, "B", b, pb);
}
static const std::vector<int>& dims() { static const std::vector<int> a = {0, 1, 2, 3, 4, 5, 8, 17}, b = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 33}; return mc::thorough() ? b : a; }
static void scalars(Ch& ch, int size, T& al, T& be) {
    if (size <= 3) { al = mc::scalar<T>(ch.pick(mc::NSCALAR)); be = mc::scalar<T>(ch.pick(mc::NSCALAR)); }
    else { static const int k[][2] = {{0, 2}, {6, 7}, {2, 4}, {4, 0}, {3, 3}}; int i = ch.pick(5); al = mc::scalar<T>(k[i][0]); be = mc::scalar<T>(k[i][1]); }
}
// every pair of scalars at sizes where only some are combined with every content
FAMILY(scalar_pairs) {
    int n = ch.of({1, 4, 7, 17}), l = ch.of({1, 5, 8, 17}), m = ch.of({1, 6, 8, 17}); T al = mc::scalar<T>(ch.pick(mc::NSCALAR)), be = mc::scalar<T>(ch.pick(mc::NSCALAR)); int pat = ch.of({0, 1});
    if (!ch.go()) return;
    ch.note("%dx%d times %dx%d a=%s b=%s pattern %d", n, l, l, m, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    Plain a = pmat(pat, n, l, 1), b = pmat(pat, l, m, 2);
    update<DM, DM, DM>(ch, a, b, pmat(pat, n, m, 3), al, be);
    if (l == m) update_alias<DM>(ch, a, b, al, be, 1);
    if (n == l) update_alias<DM>(ch, a, b, al, be, 2);
    if (n == l && l == m) { update_alias<DM>(ch, a, b, al, be, 3); update_alias<DM>(ch, a, b, al, be, 4); }
}
FAMILY(dyn_update) {
    int n = ch.of(dims()), l = ch.of(dims()), m = ch.of(dims()); T al, be; scalars(ch, std::max({n, m, l}), al, be); int pat = n * l * m > 500 ? ch.pick(2) : ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("%dx%d times %dx%d a=%s b=%s pattern %d", n, l, l, m, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    update<DM, DM, DM>(ch, pmat(pat, n, l, 1), pmat(pat, l, m, 2), pmat(pat, n, m, 3), al, be);
}
FAMILY(dyn_product) {
    int n = ch.of(dims()), l = ch.of(dims()), m = ch.of(dims()), pat = ch.pick(mc::NPAT); bool same = ch.pick(2);
    if (!ch.go()) return;
    ch.note("%dx%d times %dx%d pattern %d", n, l, l, m, pat);
    if (same && (n != l || l != m)) return;
    product<DM, DM>(ch, pmat(pat, n, l, 1), pmat(pat, l, m, 2), same);
}
FAMILY(dyn_alias) {
    int alias = 1 + ch.pick(4), n = ch.of(dims()), o = alias < 3 ? (int)ch.of(dims()) : n; T al, be; scalars(ch, std::max(n, o), al, be); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("alias %d, %d and %d a=%s b=%s pattern %d", alias, n, o, mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    // C is A: A n x l with l == m, so B is l x l;  C is B: A is square
    if (alias == 1) update_alias<DM>(ch, pmat(pat, n, o, 1), pmat(pat, o, o, 2), al, be, 1);
    else if (alias == 2) update_alias<DM>(ch, pmat(pat, n, n, 1), pmat(pat, n, o, 2), al, be, 2);
    else update_alias<DM>(ch, pmat(pat, n, n, 1), pmat(pat, n, n, 2), al, be, alias);
}
// factors with structure that a short cut could look for, the same with one element off, and factors that are equal or each other's transpose
FAMILY(structured) {
    int n = ch.of({2, 3, 4, 8, 17}), ka = ch.pick(STRUCTURES), kb = ch.pick(STRUCTURES + 2), off = ch.pick(FLAWS), side = off ? ch.pick(2) : 0, k = ch.pick(2), l = ch.pick(2);
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {4, 3}};
    const int r = l ? n + 1 : n;
    ch.note("%dx%d structures %d and %d, flaw %d in %s", n, r, ka, kb, off, side ? "B" : "A");
    Plain a = flawed(structured(ka, n, r, 1), side ? 0 : off), b = kb < STRUCTURES ? structured(kb, r, n, 2) : kb == STRUCTURES ? transposed(a) : l ? structured(2, r, n, 1) : a, c = pmat(0, n, n, 3); if (side) b = flawed(b, off);
    const T al = mc::scalar<T>(ks[k][0]), be = mc::scalar<T>(ks[k][1]);
    update<DM, DM, DM>(ch, a, b, c, al, be);
    if (k == 0) product<DM, DM>(ch, a, b, false);
    if (!l && k) { update_alias<DM>(ch, a, b, al, be, 1); update_alias<DM>(ch, a, b, al, be, 2); }
    if (!l && kb == 0) { update_alias<DM>(ch, a, b, al, be, 3); update_alias<DM>(ch, a, b, al, be, 4); }
}
FAMILY(sized) {
    static const std::vector<std::array<int, 3>> sh = {{1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {2, 3, 4}, {4, 3, 2}, {1, 5, 2}, {5, 1, 3}, {2, 7, 1}, {6, 6, 6}, {3, 0, 2}, {7, 2, 9}, {2, 2, 3}, {3, 2, 2}};
    auto s = ch.of(sh); int mix = ch.pick(12); T al, be; scalars(ch, mix < 11 ? 4 : 2, al, be); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("mix %d: %dx%d times %dx%d a=%s b=%s pattern %d", mix, s[0], s[1], s[1], s[2], mc::str(mc::wide(al)).c_str(), mc::str(mc::wide(be)).c_str(), pat);
    auto body = [&]<size_t N, size_t L, size_t M>() {
        Plain a = pmat(pat, N, L, 1), b = pmat(pat, L, M, 2), c = pmat(pat, N, M, 3);
        using A = SM<N, L>; using B = SM<L, M>; using C = SM<N, M>;
        switch (mix) {
            case 0: update<A, B, C>(ch, a, b, c, al, be); break;
            case 1: update<DM, B, C>(ch, a, b, c, al, be); break;
            case 2: update<A, DM, C>(ch, a, b, c, al, be); break;
            case 3: update<DM, DM, C>(ch, a, b, c, al, be); break;
            case 4: update<A, B, DM>(ch, a, b, c, al, be); break;
            case 5: update<DM, B, DM>(ch, a, b, c, al, be); break;
            case 6: update<A, DM, DM>(ch, a, b, c, al, be); break;
            case 7: product<A, B>(ch, a, b, false); break;
            case 8: if constexpr (N == L && L == M) product<A, B>(ch, a, b, true); break;
            case 9: {   // dynamic destination identical to a dynamic operand, the other one fixed-size
                if constexpr (L == M) { DM d = mkmat<DM>(a); B bb = mkmat<B>(b); ch.op(); mul(al, d, bb, be, d); expect_product(ch, "C = A", d, a, b, al, be, &a); expect_mat(ch, "B", bb, b); }
                break; }
            case 10: {
                if constexpr (N == L) { A aa = mkmat<A>(a); DM d = mkmat<DM>(b); ch.op(); mul(al, aa, d, be, d); expect_product(ch, "C = B", d, a, b, al, be, &b); expect_mat(ch, "A", aa, a); }
                break; }
            default: if constexpr (N == L && L == M) for (int alias = 1; alias <= 4; ++alias) update_alias<A>(ch, a, b, al, be, alias); break;
        }
    };
#define C3(x, y, z) if (s == std::array<int, 3>{x, y, z}) { body.template operator()<x, y, z>(); return; }
    C3(1, 1, 1) C3(2, 2, 2) C3(3, 3, 3) C3(2, 3, 4) C3(4, 3, 2) C3(1, 5, 2) C3(5, 1, 3) C3(2, 7, 1) C3(6, 6, 6) C3(3, 0, 2) C3(7, 2, 9) C3(2, 2, 3) C3(3, 2, 2)
}
// past every plausible blocking size: one dimension large at a time, then all
FAMILY(large_update) {
    static const std::vector<int> big = {31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025}, small = {1, 2, 3, 7};
    int which = ch.pick(3), d = ch.of(big), s = ch.of(small), t = ch.of(small), k = ch.pick(3), pat = ch.of({0, 1});
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {6, 7}, {2, 4}};
    int n = which == 0 ? d : s, l = which == 1 ? d : which == 0 ? s : t, m = which == 2 ? d : t;
    ch.note("%dx%d times %dx%d scalars %d %d pattern %d", n, l, l, m, ks[k][0], ks[k][1], pat);
    update<DM, DM, DM>(ch, pmat(pat, n, l, 1), pmat(pat, l, m, 2), pmat(pat, n, m, 3), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (k == 0) product<DM, DM>(ch, pmat(pat, n, l, 1), pmat(pat, l, m, 2), false);
    // the same with C = A or C = B, where the shapes allow it
    if (which == 0) update_alias<DM>(ch, pmat(pat, n, t, 1), pmat(pat, t, t, 2), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]), 1);
    if (which == 2) update_alias<DM>(ch, pmat(pat, s, s, 1), pmat(pat, s, m, 2), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]), 2);
}
FAMILY(large_cubes) {
    static const std::vector<int> qs = {31, 32, 33, 63, 64, 65, 66}, ts = {100, 127, 128, 129, 130, 160, 200};
    const auto& l = mc::thorough() ? ts : qs; int n = ch.of(l), m = ch.of(l), q = ch.of(l), k = ch.pick(2);
    if (!ch.go()) return;
    static const int ks[][2] = {{6, 7}, {0, 2}};
    update<DM, DM, DM>(ch, pmat(1, n, m, 1), pmat(1, m, q, 2), pmat(1, n, q, 3), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (n == m && m == q) for (int al = 1; al <= 4; ++al) update_alias<DM>(ch, pmat(1, n, n, 1), pmat(1, n, n, 2), mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]), al);
}
FAMILY(zeros_and_gradings) {
    int n = ch.of({1, 2, 3, 8}), l = ch.of({1, 2, 5}), m = ch.of({1, 3, 9}), za = ch.pick(ZEROS), zb = ch.pick(ZEROS), zc = ch.of({0, 1}), g = ch.of({0, 3, 5, 6}), k = ch.pick(3);
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 0}, {6, 7}, {2, 4}}; const T al = mc::scalar<T>(ks[k][0]), be = mc::scalar<T>(ks[k][1]);
    Plain a = graded(zeroed(pmat(1, n, l, 1), za), g, (g * 3) % GRADES), b = graded(zeroed(pmat(1, l, m, 2), zb), (g * 5) % GRADES, g), c = zeroed(pmat(1, n, m, 3), zc);
    update<DM, DM, DM>(ch, a, b, c, al, be);
    product<DM, DM>(ch, a, b, false);
    if (l == m) update_alias<DM>(ch, a, b, al, be, 1);
    if (n == l) update_alias<DM>(ch, a, b, al, be, 2);
}
FAMILY(scalar_magnitudes) {
    int n = ch.of({1, 2, 5}), l = ch.of({1, 3, 9}), m = ch.of({1, 2, 4}), ea = ch.range(-2, 2), eb = ch.range(-2, 2), pat = ch.of({0, 1});
    if (!ch.go()) return;
    const int h = mc::mag_exp<R>() / 2;
    update<DM, DM, DM>(ch, pmat(pat, n, l, 1), pmat(pat, l, m, 2), pmat(pat, n, m, 3), pow2_times(T(-3), ea * h), pow2_times(T(5), eb * h));
}
// unit matrices E_pq * E_rs: any misplaced index shows
FAMILY(positions) {
    int n = 1 + ch.pick(4), l = 1 + ch.pick(4), m = 1 + ch.pick(4), p = ch.pick(n * l), q = ch.pick(l * m);
    if (!ch.go()) return;
    ch.note("%dx%d unit %d times %dx%d unit %d", n, l, p, l, m, q);
    Plain a(n, l), b(l, m), c = pmat(0, n, m, 3); a.e[p] = T(2); b.e[q] = T(3);
    update<DM, DM, DM>(ch, a, b, c, T(1), T(1)); product<DM, DM>(ch, a, b, false);
}
// operands of more than 2^16 elements, and dimensions beyond 2^16
FAMILY(long_dimensions) {
    static const std::vector<std::array<int, 3>> sh = {{1, 2000, 40}, {40, 2000, 1}, {2, 70000, 1}, {1, 70000, 2}, {70000, 1, 1}, {1, 1, 70000}, {3, 2, 33000}, {33000, 2, 3}, {2, 33000, 3}, {300, 2, 300}, {300, 300, 2}, {2, 300, 300}, {257, 1, 257}, {66000, 2, 2}, {1, 65536, 1}, {65536, 1, 2}, {2, 1, 65537}};
    auto s = ch.of(sh); int k = ch.pick(3), pat = ch.of({0, 1});
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {6, 7}, {2, 4}};
    ch.note("%dx%d times %dx%d", s[0], s[1], s[1], s[2]);
    Plain a = pmat(pat, s[0], s[1], 1), b = pmat(pat, s[1], s[2], 2), c = pmat(pat, s[0], s[2], 3);
    update<DM, DM, DM>(ch, a, b, c, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]));
    if (k == 0) product<DM, DM>(ch, a, b, false);
    if (s[1] == s[2]) update_alias<DM>(ch, a, b, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]), 1);
    if (s[0] == s[1]) update_alias<DM>(ch, a, b, mc::scalar<T>(ks[k][0]), mc::scalar<T>(ks[k][1]), 2);
}
