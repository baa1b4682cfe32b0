// V01: element-wise vector arithmetic, every overload / aliasing / length / element pattern.
#include "lib.hpp"
using namespace lalib;
using mc::Ch;

static const char* pname(int p) { static const char* n[] = {"dyadic", "full mantissa", "wide range", "with zeros", "tiny", "huge", "tiny and huge"}; return n[p]; }

// r <- a op b for operand types A, B and destination type RR; alias: which objects are the same
template<class A, class B, class RR> void binary(Ch& ch, size_t n, int pat, bool isadd, int alias) {
    V va = mc::vals<T>(pat, n, 0), vb = mc::vals<T>(pat, n, 1), vr = mc::vals<T>(0, n, 2);
    ch.note("%s n=%zu values=%s alias=%d", isadd ? "add" : "sub", n, pname(pat), alias);
    auto ref = [&](size_t i, const V& x, const V& y) { return isadd ? mc::wide(x[i]) + mc::wide(y[i]) : mc::wide(x[i]) - mc::wide(y[i]); };
    auto call = [&](const auto& a, const auto& b, auto& r) {
        auto& ret = isadd ? add(a, b, r) : sub(a, b, r);
        ch.op();
        ch.check(static_cast<const void*>(&ret) == static_cast<const void*>(&r), "the returned reference is not the destination");
        if (r.size() != n) ch.fail("destination length changed to %zu", (size_t)r.size());
    };
    auto cmp = [&](const auto& r, const V& x, const V& y) {
        for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, r[i], ref(i, x, y), mag(x[i]) + mag(y[i]), 2);
    };
    if (alias == 0) {
        A a = mkvec<A>(va); B b = mkvec<B>(vb); RR r = mkvec<RR>(vr);
        call(a, b, r); cmp(r, va, vb); expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
        return;
    }
    if constexpr (std::is_same_v<A, RR>) if (alias == 1) {
        A a = mkvec<A>(va); B b = mkvec<B>(vb);
        call(a, b, a); cmp(a, va, vb); expect_unchanged(ch, "second operand", b, vb);
        return;
    }
    if constexpr (std::is_same_v<B, RR>) if (alias == 2) {
        A a = mkvec<A>(va); B b = mkvec<B>(vb);
        call(a, b, b); cmp(b, va, vb); expect_unchanged(ch, "first operand", a, va);
        return;
    }
    if constexpr (std::is_same_v<A, B>) if (alias == 3) {
        A a = mkvec<A>(va); RR r = mkvec<RR>(vr);
        call(a, a, r); cmp(r, va, va); expect_unchanged(ch, "operand", a, va);
        return;
    }
    if constexpr (std::is_same_v<A, B> && std::is_same_v<A, RR>) if (alias == 4) {
        A a = mkvec<A>(va);
        call(a, a, a); cmp(a, va, va);
        return;
    }
}

template<class X> void binop(Ch& ch, size_t n, int pat, bool isadd, bool same) {
    V va = mc::vals<T>(pat, n, 3), vb = mc::vals<T>(pat, n, 4);
    ch.note("operator%s n=%zu values=%s same=%d", isadd ? "+" : "-", n, pname(pat), same);
    X a = mkvec<X>(va), b = mkvec<X>(vb);
    const V& y = same ? va : vb;
    const X& bb = same ? a : b;
    X r = isadd ? a + bb : a - bb;
    ch.op();
    if (r.size() != n) ch.fail("result has length %zu", (size_t)r.size());
    for (size_t i = 0; i < n; ++i)
        mc::expect<T>(ch, "result", i, r[i], isadd ? mc::wide(va[i]) + mc::wide(y[i]) : mc::wide(va[i]) - mc::wide(y[i]), mag(va[i]) + mag(y[i]), 2);
    expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
}

template<class X> void negate(Ch& ch, size_t n, int pat, int form) {
    V va = mc::vals<T>(pat, n, 5), vr = mc::vals<T>(0, n, 6);
    X a = mkvec<X>(va), r = mkvec<X>(vr);
    ch.note("negation n=%zu values=%s form=%d", n, pname(pat), form);
    auto cmp = [&](const X& z) {
        if (z.size() != n) ch.fail("result has length %zu", (size_t)z.size());
        for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, z[i], -mc::wide(va[i]), 0, 0);
    };
    ch.op();
    if (form == 0) { X z = -a; cmp(z); expect_unchanged(ch, "operand", a, va); }
    else if (form == 1) { auto& z = neg(a, r); ch.check(&z == &r, "the returned reference is not the destination"); cmp(r); expect_unchanged(ch, "operand", a, va); }
    else { auto& z = neg(a, a); ch.check(&z == &a, "the returned reference is not the destination"); cmp(a); }
}

template<class X> void scaling(Ch& ch, size_t n, int pat, int form, int k) {
    V va = mc::vals<T>(pat, n, 7), vy = mc::vals<T>(pat, n, 8);
    T al = mc::scalar<T>(k);
    ch.note("form %d n=%zu values=%s scalar=%s", form, n, pname(pat), mc::str(mc::wide(al)).c_str());
    X a = mkvec<X>(va);
    auto prod = [&](const X& z) {
        if (z.size() != n) ch.fail("result has length %zu", (size_t)z.size());
        for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, z[i], mc::wide(al) * mc::wide(va[i]), mag(al) * mag(va[i]), CX ? 8 : 2);
    };
    ch.op();
    switch (form) {
        case 0: { auto& z = scale(al, a); ch.check(&z == &a, "the returned reference is not the destination"); prod(a); break; }
        case 1: { X z = scaled(al, a); prod(z); expect_unchanged(ch, "operand", a, va); break; }
        case 2: { X z = al * a; prod(z); expect_unchanged(ch, "operand", a, va); break; }
        case 3: { X z = a * al; prod(z); expect_unchanged(ch, "operand", a, va); break; }
        case 4: {
            X z = a / al;
            if (z.size() != n) ch.fail("result has length %zu", (size_t)z.size());
            for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "quotient", i, z[i], mc::wide(va[i]) / mc::wide(al), mag(va[i]) / mag(al), CX ? 16 : 4);
            expect_unchanged(ch, "operand", a, va); break;
        }
        case 5: {   // y <- al x + y
            X y = mkvec<X>(vy);
            auto& z = axpy(al, a, y); ch.check(&z == &y, "the returned reference is not the destination");
            if (y.size() != n) ch.fail("destination has length %zu", (size_t)y.size());
            for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, y[i], mc::wide(al) * mc::wide(va[i]) + mc::wide(vy[i]), mag(al) * mag(va[i]) + mag(vy[i]), CX ? 8 : 3);
            expect_unchanged(ch, "operand", a, va); break;
        }
        case 6: {   // x <- al x + x
            auto& z = axpy(al, a, a); ch.check(&z == &a, "the returned reference is not the destination");
            for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, a[i], mc::wide(al) * mc::wide(va[i]) + mc::wide(va[i]), (mag(al) + 1) * mag(va[i]), CX ? 8 : 3);
            break;
        }
    }
}
static int pick_scalar(Ch& ch, int form, size_t n) {
    if (form == 4 && n > 300) return ch.of({1, 4, 6, 8});
    if (form == 4) return ch.of({0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11});   // division: no zero
    if (n > 300) return ch.of({1, 2, 4, 5, 6, 8});
    return ch.pick(mc::NSCALAR);
}
static size_t pick_n(Ch& ch) { return ch.of(dyn_sizes()); }
// big vectors: dyadic and full-mantissa contents only
static int pick_pat(Ch& ch, size_t n) { return n > 2100 ? ch.pick(2) : ch.pick(mc::NPAT); }

FAMILY(dyn_add_sub) {
    size_t n = pick_n(ch); int pat = pick_pat(ch, n); bool a = ch.pick(2) == 0; int alias = ch.pick(5);
    if (!ch.go()) return;
    binary<DynVec<T>, DynVec<T>, DynVec<T>>(ch, n, pat, a, alias);
}
FAMILY(dyn_operators) {
    size_t n = pick_n(ch); int pat = pick_pat(ch, n); bool a = ch.pick(2) == 0; bool s = ch.pick(2);
    if (!ch.go()) return;
    binop<DynVec<T>>(ch, n, pat, a, s);
}
FAMILY(dyn_negation) {
    size_t n = pick_n(ch); int pat = pick_pat(ch, n); int form = ch.pick(3);
    if (!ch.go()) return;
    negate<DynVec<T>>(ch, n, pat, form);
}
FAMILY(dyn_scaling) {
    size_t n = pick_n(ch); int pat = pick_pat(ch, n); int form = ch.pick(7); int k = pick_scalar(ch, form, n);
    if (!ch.go()) return;
    scaling<DynVec<T>>(ch, n, pat, form, k);
}
FAMILY(sized_all) {
    size_t n = ch.of(sized_sizes()); int pat = ch.pick(mc::NPAT);
    int what = ch.pick(8);
    int b = 0, alias = 0, k = 0;
    switch (what) {
        case 0: b = ch.pick(2); alias = ch.pick(5); break;        // sized op sized -> sized
        case 1: b = ch.pick(2); alias = ch.of({0, 1}); break;     // sized op dyn -> sized
        case 2: b = ch.pick(2); alias = ch.of({0, 2}); break;     // dyn op sized -> sized
        case 3: b = ch.pick(2); alias = ch.pick(2); break;        // operators
        case 4: b = ch.pick(3); break;                            // negation
        default: b = what == 5 ? ch.of({0, 1, 2, 3}) : what == 6 ? 4 : ch.of({5, 6}); k = pick_scalar(ch, b, n); break;
    }
    if (!ch.go()) return;
    mc::dispatch<SIZED_LIST>(ch, n, [&]<size_t N>() {
        using S = SizedVec<T, N>; using D = DynVec<T>;
        switch (what) {
            case 0: binary<S, S, S>(ch, n, pat, b == 0, alias); break;
            case 1: binary<S, D, S>(ch, n, pat, b == 0, alias); break;
            case 2: binary<D, S, S>(ch, n, pat, b == 0, alias); break;
            case 3: binop<S>(ch, n, pat, b == 0, alias); break;
            case 4: negate<S>(ch, n, pat, b); break;
            default: scaling<S>(ch, n, pat, b, k);
        }
    });
}
FAMILY(huge) {
    size_t n = ch.of(huge_sizes()); int op = ch.pick(9);
    if (!ch.go()) return;
    ch.note("n=%zu operation %d", n, op);
    V a = small_ints(n, 1), b = small_ints(n, 2); DynVec<T> x(a), y(b), z(small_ints(n, 3)); const T k(3);
    ch.op();
    W ka = 0, kb = 0; DynVec<T>* r = &z; bool cx = true, cy = true;
    switch (op) {
        case 0: add(x, y, z); ka = 1; kb = 1; break;
        case 1: sub(x, y, z); ka = 1; kb = -1; break;
        case 2: sub(x, y, x); ka = 1; kb = -1; r = &x; cx = false; break;
        case 3: add(x, y, y); ka = 1; kb = 1; r = &y; cy = false; break;
        case 4: axpy(k, x, y); ka = 3; kb = 1; r = &y; cy = false; break;
        case 5: scale(k, x); ka = 3; r = &x; cx = false; break;
        case 6: neg(x, z); ka = -1; break;
        case 7: z = x + y; ka = 1; kb = 1; break;
        case 8: z = x - k * y; ka = 1; kb = -3; break;
    }
    if (r->size() != n) ch.fail("the result has length %zu", (size_t)r->size());
    for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "result", i, (*r)[i], ka * mc::wide(a[i]) + kb * mc::wide(b[i]), 0, 0);
    if (cx) expect_unchanged(ch, "x", x, a);
    if (cy) expect_unchanged(ch, "y", y, b);
}
// one operation per position: a single non-zero component must stay where it is (index errors at any length)
FAMILY(unit_impulse) {
    size_t n = 1 + ch.pick(mc::thorough() ? 260 : 72); size_t p = ch.pick((int)n); int op = ch.pick(5);
    if (!ch.go()) return;
    V v(n, T(0)), z(n, T(0)); v[p] = T(3);
    DynVec<T> a(v), b(z), r(z);
    ch.note("impulse at %zu of %zu op %d", p, n, op);
    ch.op();
    W want = 3;
    if (op == 0) add(a, b, r); else if (op == 1) { sub(b, a, r); want = -3; } else if (op == 2) axpy(T(1), a, r); else if (op == 3) { neg(a, r); want = -3; } else { r = a; scale(T(1), r); }
    for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, "component", i, r[i], i == p ? want : W(0), 3, 1);
}
// contents with structure a short cut could look for: ones, zeros, equal or opposite operands, at most one component off
FAMILY(structured) {
    size_t n = ch.of({1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 18, 33, 64, 100}); int ka = ch.pick(SHAPED), kb = ch.pick(SHAPED + 3), off = ch.pick(5), k = ch.pick(mc::NSCALAR);
    if (!ch.go()) return;
    V a = shaped(ka, n, 1), b = kb < SHAPED ? shaped(kb, n, 2) : a;
    if (kb == SHAPED + 1) for (auto& x: b) x = -x;
    if (kb == SHAPED + 2) std::reverse(b.begin(), b.end());
    if (off) b[off == 1 ? 0 : off == 2 ? n - 1 : off == 3 ? n / 2 : n / 3] += cplx(3, 1);
    const T al = mc::scalar<T>(k);
    ch.note("n=%zu contents %d and %d, flaw %d, scalar %d", n, ka, kb, off, k);
    auto cmp = [&](const char* what, const DynVec<T>& z, auto&& f, auto&& m) { if (z.size() != n) ch.fail("%s: length %zu", what, (size_t)z.size()); for (size_t i = 0; i < n; ++i) mc::expect<T>(ch, what, i, z[i], f(i), m(i), CX ? 8 : 3); };
    auto sum = [&](size_t i) { return mc::wide(a[i]) + mc::wide(b[i]); }; auto dif = [&](size_t i) { return mc::wide(a[i]) - mc::wide(b[i]); }; auto mg = [&](size_t i) { return mag(a[i]) + mag(b[i]); };
    auto axp = [&](size_t i) { return mc::wide(al) * mc::wide(a[i]) + mc::wide(b[i]); }; auto am = [&](size_t i) { return mag(al) * mag(a[i]) + mag(b[i]); };
    DynVec<T> x(a), y(b), z(V(n, T(7)));
    if (k == 0) {
        ch.op(4);
        add(x, y, z); cmp("add", z, sum, mg); sub(x, y, z); cmp("sub", z, dif, mg);
        cmp("x + y", x + y, sum, mg); cmp("x - y", x - y, dif, mg);
        DynVec<T> w(a); sub(w, y, w); cmp("x = x - y", w, dif, mg); w = DynVec<T>(b); sub(x, w, w); cmp("y = x - y", w, dif, mg);
        expect_unchanged(ch, "x", x, a); expect_unchanged(ch, "y", y, b);
    }
    ch.op(2);
    DynVec<T> w(b); axpy(al, x, w); cmp("axpy", w, axp, am); expect_unchanged(ch, "x", x, a);
    w = DynVec<T>(b); scale(al, w); cmp("scale", w, [&](size_t i) { return mc::wide(al) * mc::wide(b[i]); }, [&](size_t i) { return mag(al) * mag(b[i]); });
}
