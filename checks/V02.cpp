// V02: inner product and Euclidean norm, every length / content / call form / operand mix.
#include "lib.hpp"
using namespace lalib;
using mc::Ch;

static W ref_dot(const V& a, const V& b, long double& scale) {
    W s = 0; scale = 0;
    for (size_t i = 0; i < a.size(); ++i) { s += mc::wide(a[i]) * mc::wide(b[i]); scale += mag(a[i]) * mag(b[i]); }
    return s;
}
// dyadic contents: every partial sum is exact whatever the order, as long as the scaled sum fits the significand
static long double slack(int pat, size_t n, long double scale) {
    long double units = scale * 64;                       // multiples of 1/64
    if ((pat == 0 || pat == 3) && units * mc::eps<T>() * 2 < 1) return 0;
    return (long double)n + 8;
}
static long double ref_norm(const V& a) { long double s = 0; for (auto& x: a) s += std::norm(std::complex<long double>(mc::wide(x))); return std::sqrt(s); }

template<class A, class B> void dots(Ch& ch, const V& va, const V& vb, int pat, bool same) {
    A a = mkvec<A>(va); B b = mkvec<B>(vb);
    long double sc; W want = ref_dot(va, same ? va : vb, sc);
    long double k = slack(pat, va.size(), sc);
    auto cmp = [&](const char* w, T got) { ch.op(); mc::expect<T>(ch, w, 0, got, want, sc, k); };
    if constexpr (std::is_same_v<A, B>) {
        if (same) { cmp("a.dot(a)", a.dot(a)); cmp("dot(a, a)", dot(a, a)); expect_unchanged(ch, "operand", a, va); return; }
        cmp("dot(a, b)", dot(a, b));
        cmp("dot(b, a)", dot(b, a));
    }
    cmp("a.dot(b)", a.dot(b));
    cmp("b.dot(a)", b.dot(a));
    const A& ca = a; const B& cb = b;
    cmp("const a.dot(b)", ca.dot(cb));
    expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
}
template<class A> void norms(Ch& ch, const V& va, long double extra = 0) {
    A a = mkvec<A>(va);
    long double want = ref_norm(va);
    for (int rep = 0; rep < 2; ++rep) {
        T got = a.norm2(); ch.op();
        mc::expect<T>(ch, "norm2", 0, got, W(want), want, (long double)va.size() / 2 + 8 + extra);
        if constexpr (CX) ch.check(std::imag(got) == 0, "the norm has an imaginary part");
    }
    expect_unchanged(ch, "operand", a, va);
}
FAMILY(dyn_dot) {
    size_t n = ch.of(dyn_sizes()); int pat = ch.pick(mc::NPAT); bool same = ch.pick(2);
    if (!ch.go()) return;
    ch.note("dot of two dynamic vectors n=%zu pattern=%d same=%d", n, pat, same);
    dots<DynVec<T>, DynVec<T>>(ch, mc::vals<T>(pat, n, 0), mc::vals<T>(pat, n, 1), pat, same);
}
FAMILY(dyn_norm) {
    size_t n = ch.of(dyn_sizes()); int pat = ch.pick(mc::NPAT);
    if (!ch.go()) return;
    ch.note("norm2 of a dynamic vector n=%zu pattern=%d", n, pat);
    norms<DynVec<T>>(ch, mc::vals<T>(pat, n, 2));
}
FAMILY(sized_all) {
    size_t n = ch.of(sized_sizes()); int pat = ch.pick(mc::NPAT); int what = ch.pick(4);
    if (!ch.go()) return;
    ch.note("fixed-size n=%zu pattern=%d what=%d", n, pat, what);
    V a = mc::vals<T>(pat, n, 3), b = mc::vals<T>(pat, n, 4);
    mc::dispatch<SIZED_LIST>(ch, n, [&]<size_t N>() {
        using S = SizedVec<T, N>; using D = DynVec<T>;
        if (what == 0) dots<S, S>(ch, a, b, pat, false);
        else if (what == 1) dots<S, S>(ch, a, b, pat, true);
        else if (what == 2) dots<S, D>(ch, a, b, pat, false);
        else norms<S>(ch, a);
    });
}
// one or two non-zero components at every pair of positions: exact, so any skipped, repeated or misplaced term shows
FAMILY(positions) {
    size_t n = 1 + ch.pick(mc::thorough() ? 96 : 40); int p = ch.pick((int)n), q = ch.pick((int)n);
    if (!ch.go()) return;
    V a(n, T(0)), b(n, T(0)); a[p] = T(3); b[q] = T(5);
    ch.note("n=%zu a[%d]=3 b[%d]=5", n, p, q);
    dots<DynVec<T>, DynVec<T>>(ch, a, b, 0, false);
    V c(n, T(0)); c[p] = T(3); c[q] = T(-4);
    norms<DynVec<T>>(ch, c, -4.0L - n / 2.0L);
}
FAMILY(impulse) {
    size_t n = ch.of(dyn_sizes()); int where = ch.pick(9);
    if (!ch.go()) return;
    if (n == 0) return;
    size_t p = std::min(n - 1, where == 0 ? 0 : where == 8 ? n - 1 : where == 7 ? (n > 1 ? n - 2 : 0) : n * where / 7);
    V a(n, T(0)), b(n, T(2)); a[p] = T(-7);
    ch.note("n=%zu impulse at %zu", n, p);
    dots<DynVec<T>, DynVec<T>>(ch, a, b, 0, false);
    norms<DynVec<T>>(ch, a, -4.0L - n / 2.0L);
    if constexpr (CX) { V c(n, T(0)); c[p] = cplx(3, 4); norms<DynVec<T>>(ch, c, -4.0L - n / 2.0L); dots<DynVec<T>, DynVec<T>>(ch, c, c, 0, true); }
}
FAMILY(huge) {
    size_t n = ch.of(huge_sizes()); int what = ch.pick(3);
    if (!ch.go()) return;
    ch.note("n=%zu %s", n, what == 0 ? "dot" : what == 1 ? "dot with itself" : "norm");
    V a = small_ints(n, 1), b = small_ints(n, 2); DynVec<T> x(a), y(b);
    long double sc; W want = ref_dot(a, what ? a : b, sc);
    ch.op(2);
    if (what < 2) { const auto& r = what ? x : y; mc::expect<T>(ch, "x.dot(y)", 0, x.dot(r), want, sc, 0); mc::expect<T>(ch, "dot(y, x)", 0, dot(r, x), want, sc, 0); }
    else { const auto nn = ref_norm(a); mc::expect<T>(ch, "norm2", 0, x.norm2(), W(nn), nn, 8); }
    expect_unchanged(ch, "x", x, a); expect_unchanged(ch, "y", y, b);
}
// operands with structure a short cut could look for: equal, opposite or conjugate to each other, with at most one component off
FAMILY(structured) {
    size_t n = ch.of({1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 100, 257}); int ka = ch.pick(SHAPED), kb = ch.pick(SHAPED + 4), off = ch.pick(5);
    if (!ch.go()) return;
    V a = shaped(ka, n, 1), b = kb < SHAPED ? shaped(kb, n, 2) : a;
    if (kb == SHAPED + 1) for (auto& x: b) x = -x;
    if (kb == SHAPED + 2) std::reverse(b.begin(), b.end());
    if (kb == SHAPED + 3) for (auto& x: b) x = conjugate(x);
    if (off) b[off == 1 ? 0 : off == 2 ? n - 1 : off == 3 ? n / 2 : n / 3] += cplx(3, 1);
    ch.note("n=%zu contents %d and %d, flaw %d", n, ka, kb, off);
    dots<DynVec<T>, DynVec<T>>(ch, a, b, 0, false);
    norms<DynVec<T>>(ch, b);
}
