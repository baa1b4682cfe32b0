// V04: cross products: every operand/destination mix and aliasing, all small-integer operands and rounding patterns.
#include "lib.hpp"
using namespace lalib;
using mc::Ch;
using S2 = SizedVec<T, 2>; using S3 = SizedVec<T, 3>; using D = DynVec<T>;

static V pick_vec(Ch& ch, int n, int salt, int src) {
    V v;
    if (src == 0) for (int i = 0; i < n; ++i) { int k = ch.pick(3); v.push_back(cplx(k - 1 + (k == 2), k == 0 ? 2 : -k)); }
    else v = mc::vals<T>(src == 1 ? 1 : src == 2 ? 2 : 3, n, salt);
    return v;
}
static void cross_ref(const V& x, const V& y, W r[3], long double s[3]) {
    static const int A[3] = {1, 2, 0}, B[3] = {2, 0, 1};
    for (int i = 0; i < 3; ++i) {
        r[i] = mc::wide(x[A[i]]) * mc::wide(y[B[i]]) - mc::wide(x[B[i]]) * mc::wide(y[A[i]]);
        s[i] = mag(x[A[i]]) * mag(y[B[i]]) + mag(x[B[i]]) * mag(y[A[i]]);
    }
}
template<class A, class B> void two(Ch& ch, const V& vx, const V& vy) {
    A a = mkvec<A>(vx); B b = mkvec<B>(vy);
    ch.op();
    T c = cross(a, b);
    mc::expect<T>(ch, "2-d cross product", 0, c, mc::wide(vx[0]) * mc::wide(vy[1]) - mc::wide(vx[1]) * mc::wide(vy[0]), mag(vx[0]) * mag(vy[1]) + mag(vx[1]) * mag(vy[0]), 8);
    expect_unchanged(ch, "x", a, vx); expect_unchanged(ch, "y", b, vy);
}
// form 0: new vector, 1: destination, 2: accumulate; alias 0 none, 1 dst=x, 2 dst=y, 3 x=y, 4 all the same
template<class A, class B, class RR> void three(Ch& ch, const V& vx, const V& vy, int form, int alias) {
    V vr = {cplx(5, -1), cplx(-6, 2), cplx(7, 3)};
    A a = mkvec<A>(vx); B b = mkvec<B>(vy); RR r = mkvec<RR>(vr);
    W want[3]; long double sc[3];
    auto cmp = [&](const auto& z, const V& x, const V& y, const V* acc) {
        if (z.size() != 3) ch.fail("the result has length %zu", (size_t)z.size());
        cross_ref(x, y, want, sc);
        for (int i = 0; i < 3; ++i) mc::expect<T>(ch, "component", i, z[i], want[i] + (acc ? mc::wide((*acc)[i]) : W(0)), sc[i] + (acc ? mag((*acc)[i]) : 0), 8);
    };
    auto call = [&](const auto& x, const auto& y, auto& z) {
        ch.op();
        auto& ret = form == 1 ? cross(x, y, z) : cross_acc(x, y, z);
        ch.check((const void*)&ret == (const void*)&z, "the returned reference is not the destination");
    };
    if (form == 0) {
        if constexpr (!(std::is_same_v<A, D> && std::is_same_v<B, D>)) {
            ch.op();
            auto z = cross(a, b); cmp(z, vx, vy, nullptr);
            if constexpr (std::is_same_v<A, B>) if (alias == 3) { auto w = cross(a, a); cmp(w, vx, vx, nullptr); }
            expect_unchanged(ch, "x", a, vx); expect_unchanged(ch, "y", b, vy);
        }
        return;
    }
    const bool acc = form == 2;
    if (alias == 0) { call(a, b, r); cmp(r, vx, vy, acc ? &vr : nullptr); expect_unchanged(ch, "x", a, vx); expect_unchanged(ch, "y", b, vy); return; }
    if constexpr (std::is_same_v<A, RR>) if (alias == 1) { call(a, b, a); cmp(a, vx, vy, acc ? &vx : nullptr); expect_unchanged(ch, "y", b, vy); return; }
    if constexpr (std::is_same_v<B, RR>) if (alias == 2) { call(a, b, b); cmp(b, vx, vy, acc ? &vy : nullptr); expect_unchanged(ch, "x", a, vx); return; }
    if constexpr (std::is_same_v<A, B>) if (alias == 3) { call(a, a, r); cmp(r, vx, vx, acc ? &vr : nullptr); expect_unchanged(ch, "x", a, vx); return; }
    if constexpr (std::is_same_v<A, B> && std::is_same_v<A, RR>) if (alias == 4) { call(a, a, a); cmp(a, vx, vx, acc ? &vx : nullptr); return; }
}
FAMILY(two_dimensional) {
    int mix = ch.pick(3), src = ch.pick(4); V x = pick_vec(ch, 2, 1, src), y = pick_vec(ch, 2, 2, src);
    if (!ch.go()) return;
    ch.note("2-d mix %d x=%s y=%s", mix, mc::dump(x).c_str(), mc::dump(y).c_str());
    if (mix == 0) two<S2, S2>(ch, x, y); else if (mix == 1) two<S2, D>(ch, x, y); else two<D, S2>(ch, x, y);
}
// two dynamic operands without a destination: the overloads for 2 and 3 components differ in the return type only, which a function pointer can tell apart
template<class E> concept Chosen2 = requires { static_cast<E (*)(const DynVec<E>&, const DynVec<E>&)>(&lalib::cross<E>); };
template<class E> concept Chosen3 = requires { static_cast<SizedVec<E, 3> (*)(const DynVec<E>&, const DynVec<E>&)>(&lalib::cross<E>); };
template<class E> void chosen(Ch& ch, const V& x, const V& y) {
    D a(x), b(y);
    if (x.size() == 2) {
        if constexpr (Chosen2<E>) {
            auto* f = static_cast<E (*)(const DynVec<E>&, const DynVec<E>&)>(&lalib::cross<E>);
            auto cmp = [&](const D& p, const D& q, const V& vx, const V& vy) { ch.op(); mc::expect<T>(ch, "2-d cross product", 0, f(p, q), mc::wide(vx[0]) * mc::wide(vy[1]) - mc::wide(vx[1]) * mc::wide(vy[0]), mag(vx[0]) * mag(vy[1]) + mag(vx[1]) * mag(vy[0]), 8); };
            cmp(a, b, x, y); cmp(a, a, x, x);
        }
    } else if constexpr (Chosen3<E>) {
        auto* f = static_cast<SizedVec<E, 3> (*)(const DynVec<E>&, const DynVec<E>&)>(&lalib::cross<E>);
        auto cmp = [&](const D& p, const D& q, const V& vx, const V& vy) { ch.op(); W want[3]; long double sc[3]; cross_ref(vx, vy, want, sc); auto z = f(p, q); for (int i = 0; i < 3; ++i) mc::expect<T>(ch, "component", i, z[i], want[i], sc[i], 8); };
        cmp(a, b, x, y); cmp(a, a, x, x);
    }
    expect_unchanged(ch, "x", a, x); expect_unchanged(ch, "y", b, y);
}
FAMILY(two_dynamic_chosen_by_result) {
    int n = 2 + ch.pick(2), src = ch.pick(4); V x = pick_vec(ch, n, 1, src), y = pick_vec(ch, n, 2, src);
    if (!ch.go()) return;
    ch.note("%d-d x=%s y=%s", n, mc::dump(x).c_str(), mc::dump(y).c_str());
    chosen<T>(ch, x, y);
}
FAMILY(three_dimensional) {
    int mix = ch.pick(8), form = ch.pick(3), alias = ch.pick(5), src = ch.pick(4);
    V x = pick_vec(ch, 3, 1, src), y = alias == 4 ? x : pick_vec(ch, 3, 2, src);
    if (!ch.go()) return;
    ch.note("3-d mix %d form %d alias %d x=%s y=%s", mix, form, alias, mc::dump(x).c_str(), mc::dump(y).c_str());
    switch (mix) {
        case 0: three<S3, S3, S3>(ch, x, y, form, alias); break; case 1: three<S3, S3, D>(ch, x, y, form, alias); break;
        case 2: three<S3, D, S3>(ch, x, y, form, alias); break;  case 3: three<S3, D, D>(ch, x, y, form, alias); break;
        case 4: three<D, S3, S3>(ch, x, y, form, alias); break;  case 5: three<D, S3, D>(ch, x, y, form, alias); break;
        case 6: three<D, D, S3>(ch, x, y, form, alias); break;   case 7: three<D, D, D>(ch, x, y, form, alias); break;
    }
}
