// V03: every combination of lengths is either accepted or rejected with SizeMismatched before anything changes.
#include "lib.hpp"
using namespace lalib;
using mc::Ch;

static const std::vector<int>& lens() {
    static const std::vector<int> v = [] {
        std::vector<int> r;
        for (int i = 0; i <= (mc::thorough() ? 20 : 9); ++i) r.push_back(i);
        for (int i: {15, 16, 17, 31, 32, 33, 64, 100, 257}) if (std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
        return r;
    }();
    return v;
}
static bool eq(int a, int b) { return a == b; }

// f performs the call; it must throw SizeMismatched exactly if !ok
template<class F> void guarded(Ch& ch, bool ok, F&& f) {
    ch.op();
    bool threw = false;
    try { f(); }
    catch (const vec_error::SizeMismatched& e) {
        threw = true;
        const std::exception& base = e;
        if (ok) ch.fail("a size mismatch is reported for equal lengths: %s", base.what());
    }
    catch (const mc::Fail&) { throw; }
    catch (const std::exception& e) { ch.fail("another exception than SizeMismatched: %s", e.what()); }
    if (!ok && !threw) ch.fail("different lengths were accepted");
    ch.out(threw);
}
template<class A, class B, class RR> void three(Ch& ch, int n1, int n2, int nr, bool isadd, int alias) {
    V va = mc::vals<T>(0, n1, 0), vb = mc::vals<T>(0, n2, 1), vr = mc::vals<T>(0, nr, 2);
    auto call = [&](const auto& a, const auto& b, auto& r) { if (isadd) add(a, b, r); else sub(a, b, r); };
    auto res = [&](const auto& r, const V& x, const V& y) { for (size_t i = 0; i < r.size(); ++i) mc::expect<T>(ch, "result", i, r[i], isadd ? mc::wide(x[i]) + mc::wide(y[i]) : mc::wide(x[i]) - mc::wide(y[i]), 0, 0); };
    ch.note("%s lengths %d %d -> %d alias %d", isadd ? "add" : "sub", n1, n2, nr, alias);
    A a = mkvec<A>(va); B b = mkvec<B>(vb); RR r = mkvec<RR>(vr);
    if (alias == 0) {
        bool ok = eq(n1, n2) && eq(n1, nr);
        guarded(ch, ok, [&] { call(a, b, r); });
        expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
        if (ok) res(r, va, vb); else expect_unchanged(ch, "destination", r, vr);
    } else if (alias == 1) {
        if constexpr (std::is_same_v<A, RR>) {
            guarded(ch, eq(n1, n2), [&] { call(a, b, a); });
            if (eq(n1, n2)) res(a, va, vb); else expect_unchanged(ch, "first operand and destination", a, va);
            expect_unchanged(ch, "second operand", b, vb);
        }
    } else if (alias == 2) {
        if constexpr (std::is_same_v<B, RR>) {
            guarded(ch, eq(n1, n2), [&] { call(a, b, b); });
            if (eq(n1, n2)) res(b, va, vb); else expect_unchanged(ch, "second operand and destination", b, vb);
            expect_unchanged(ch, "first operand", a, va);
        }
    } else if (alias == 3) {
        if constexpr (std::is_same_v<A, B>) {
            guarded(ch, eq(n1, nr), [&] { call(a, a, r); });
            if (eq(n1, nr)) res(r, va, va); else expect_unchanged(ch, "destination", r, vr);
            expect_unchanged(ch, "operand", a, va);
        }
    }
}
FAMILY(dyn_add_sub) {
    int n1 = ch.of(lens()), n2 = ch.of(lens()), nr = ch.of(lens()); bool s = ch.pick(2); int alias = ch.pick(4);
    if (!ch.go()) return;
    three<DynVec<T>, DynVec<T>, DynVec<T>>(ch, n1, n2, nr, s, alias);
}
FAMILY(dyn_pairs) {       // operators, axpy, neg, dot
    int n1 = ch.of(lens()), n2 = ch.of(lens()), op = ch.pick(8);
    if (!ch.go()) return;
    V va = mc::vals<T>(0, n1, 0), vb = mc::vals<T>(0, n2, 1);
    DynVec<T> a(va), b(vb);
    bool ok = n1 == n2;
    ch.note("op %d lengths %d %d", op, n1, n2);
    const DynVec<T>&ca = a, &cb = b;
    switch (op) {
        case 0: guarded(ch, ok, [&] { auto r = ca + cb; ch.check(r.size() == (size_t)n1, "length of the sum"); }); break;
        case 1: guarded(ch, ok, [&] { auto r = ca - cb; ch.check(r.size() == (size_t)n1, "length of the difference"); }); break;
        case 2: guarded(ch, ok, [&] { (void)dot(ca, cb); }); break;
        case 3: guarded(ch, ok, [&] { (void)ca.dot(cb); }); break;
        case 4: guarded(ch, ok, [&] { axpy(T(2), ca, b); }); if (ok) b = DynVec<T>(vb); break;
        case 5: guarded(ch, ok, [&] { neg(ca, b); }); if (ok) b = DynVec<T>(vb); break;
        case 6: guarded(ch, ok, [&] { add(ca, cb, a); }); if (ok) a = DynVec<T>(va); break;
        case 7: guarded(ch, ok, [&] { sub(ca, cb, b); }); if (ok) b = DynVec<T>(vb); break;
    }
    expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
}
// after a rejected call the objects are as usable as before
FAMILY(after_rejection) {
    int n1 = ch.of(lens()), n2 = ch.of(lens()), op1 = ch.pick(5), op2 = ch.pick(5);
    if (!ch.go()) return;
    if (n1 == n2) return;
    V va = mc::vals<T>(0, n1, 0), vb = mc::vals<T>(0, n2, 1), vc = mc::vals<T>(0, n1, 2);
    DynVec<T> a(va), b(vb), c(vc), r(vc);
    ch.note("rejected op %d then op %d, lengths %d %d", op1, op2, n1, n2);
    auto go = [&](int op, const DynVec<T>& x, const DynVec<T>& y, DynVec<T>& z) {
        switch (op) { case 0: add(x, y, z); break; case 1: sub(x, y, z); break; case 2: (void)x.dot(y); add(x, y, z); break; case 3: neg(y, z); add(x, y, z); break; default: z = y; axpy(T(1), x, z); }
    };
    guarded(ch, false, [&] { if (op1 == 4) axpy(T(1), a, b); else go(op1, a, b, r); });
    if (op1 == 3) r = DynVec<T>(vc);
    expect_unchanged(ch, "operand", a, va); expect_unchanged(ch, "operand", b, vb);
    guarded(ch, true, [&] { go(op2, a, c, r); });
    for (int i = 0; i < n1; ++i) mc::expect<T>(ch, "result", i, r[i], op2 == 1 ? mc::wide(va[i]) - mc::wide(vc[i]) : mc::wide(va[i]) + mc::wide(vc[i]), 0, 0);
}
FAMILY(mixed) {
    size_t n = ch.of(sized_sizes()); int nd = ch.of(lens()), op = ch.pick(8);
    if (!ch.go()) return;
    mc::dispatch<SIZED_LIST>(ch, n, [&]<size_t N>() {
        using S = SizedVec<T, N>; using D = DynVec<T>;
        V va = mc::vals<T>(0, N, 0), vb = mc::vals<T>(0, nd, 1);
        bool ok = (size_t)nd == N;
        if (op < 4) {
            int alias = op >= 2;
            if (op % 2 == 0) { three<S, D, S>(ch, N, nd, N, true, alias ? 1 : 0); three<S, D, S>(ch, N, nd, N, false, alias ? 1 : 0); }
            else { three<D, S, S>(ch, nd, N, N, true, alias ? 2 : 0); three<D, S, S>(ch, nd, N, N, false, alias ? 2 : 0); }
            return;
        }
        ch.note("fixed %zu, dynamic %d, op %d", N, nd, op);
        S s = mkvec<S>(va); D d(vb);
        if (op == 4) guarded(ch, ok, [&] { (void)s.dot(d); });
        else if (op == 5) guarded(ch, ok, [&] { (void)d.dot(s); });
        else if (op == 6) {        // construction of a vector
            bool threw = false; ch.op();
            try { S x(vb); for (size_t i = 0; i < N; ++i) mc::expect_same<T>(ch, "built vector", i, x[i], vb[i]); }
            catch (const std::runtime_error&) { threw = true; }
            if (threw == ok) ch.fail("a vector of %zu from a sequence of %d elements was %s", N, nd, threw ? "rejected" : "accepted");
        } else {                   // construction of matrices with N elements
            auto build = [&]<size_t P, size_t Q>() {
                if constexpr (P * Q == N && N > 0) {
                    bool threw = false; ch.op();
                    try { SizedMat<T, P, Q> x(vb); for (size_t i = 0; i < N; ++i) mc::expect_same<T>(ch, "built matrix", i, x(i / Q, i % Q), vb[i]); }
                    catch (const std::runtime_error&) { threw = true; }
                    if (threw == ok) ch.fail("a %zux%zu matrix from a sequence of %d elements was %s", P, Q, nd, threw ? "rejected" : "accepted");
                }
            };
            build.template operator()<N, 1>(); build.template operator()<1, N>(); build.template operator()<N / 4, 4>(); build.template operator()<N / 3, 3>(); build.template operator()<2, N / 2>();
        }
        expect_unchanged(ch, "fixed-size operand", s, va); expect_unchanged(ch, "dynamic operand", d, vb);
    });
}
template<class X, class F> void init_case(Ch& ch, std::initializer_list<T> il, size_t want, const char* what, F&& get) {
    bool ok = il.size() == want, threw = false; ch.op();
    try { X x(il); for (size_t i = 0; i < want; ++i) mc::expect_same<T>(ch, what, i, get(x, i), *(il.begin() + i)); }
    catch (const std::runtime_error&) { threw = true; }
    if (threw == ok) ch.fail("%s with %zu elements from a list of %zu was %s", what, want, il.size(), threw ? "rejected" : "accepted");
}
template<size_t P, size_t Q> void init_mat(Ch& ch, std::initializer_list<T> il) { init_case<SizedMat<T, P, Q>>(ch, il, P * Q, "matrix", [](auto& m, size_t i) { return m(i / Q, i % Q); }); }
template<size_t N> void init_vec(Ch& ch, std::initializer_list<T> il) { init_case<SizedVec<T, N>>(ch, il, N, "vector", [](auto& m, size_t i) { return m[i]; }); }
FAMILY(initializer_lists) {
    int len = ch.pick(10), which = ch.pick(16);
    if (!ch.go()) return;
    ch.note("list of %d, type %d", len, which);
    auto f = [&](std::initializer_list<T> il) {
        switch (which) {
            case 0: init_vec<1>(ch, il); break; case 1: init_vec<2>(ch, il); break; case 2: init_vec<3>(ch, il); break; case 3: init_vec<4>(ch, il); break;
            case 4: init_vec<5>(ch, il); break; case 5: init_vec<6>(ch, il); break; case 6: init_vec<9>(ch, il); break; case 7: init_vec<0>(ch, il); break;
            case 8: init_mat<1, 1>(ch, il); break; case 9: init_mat<2, 2>(ch, il); break; case 10: init_mat<2, 3>(ch, il); break; case 11: init_mat<3, 2>(ch, il); break;
            case 12: init_mat<3, 3>(ch, il); break; case 13: init_mat<1, 5>(ch, il); break; case 14: init_mat<4, 2>(ch, il); break; default: init_mat<7, 1>(ch, il); break;
        }
    };
    auto v = [](int i) { return mc::val<T>(0, i, 3); };
    switch (len) {
        case 0: f({}); break; case 1: f({v(0)}); break; case 2: f({v(0), v(1)}); break; case 3: f({v(0), v(1), v(2)}); break; case 4: f({v(0), v(1), v(2), v(3)}); break;
        case 5: f({v(0), v(1), v(2), v(3), v(4)}); break; case 6: f({v(0), v(1), v(2), v(3), v(4), v(5)}); break; case 7: f({v(0), v(1), v(2), v(3), v(4), v(5), v(6)}); break;
        case 8: f({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7)}); break; default: f({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8)}); break;
    }
}
// lengths that agree modulo 2^8, 2^15, 2^16, or by their low bits otherwise, and lengths far apart
FAMILY(far_apart) {
    static const std::vector<std::array<int, 2>> ps = {{0, 256}, {1, 257}, {3, 259}, {44, 300}, {255, 511}, {256, 512}, {0, 512}, {16, 272}, {0, 65536}, {1, 65537}, {5, 65541}, {256, 65792}, {0, 131072}, {65536, 131072}, {300, 65836}, {0, 32768}, {1, 32769}, {32767, 32768}, {65535, 65536}, {65536, 65537}, {128, 384}, {127, 255}, {1, 100003}, {100002, 100003}, {1000, 1024}, {1024, 2048}, {4096, 8192}};
    auto p = ch.of(ps); int op = ch.pick(2), alias = ch.pick(4), roles = ch.pick(6);
    if (!ch.go()) return;
    static const int rl[6][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}}; const int* q = rl[roles];
    three<DynVec<T>, DynVec<T>, DynVec<T>>(ch, p[q[0]], p[q[1]], p[q[2]], op, alias);
    int n1 = p[roles % 2], n2 = p[1 - roles % 2];
    V va = mc::vals<T>(0, n1, 0), vb = mc::vals<T>(0, n2, 1); DynVec<T> a(va), b(vb); const DynVec<T>&ca = a, &cb = b;
    switch (alias * 2 + op) {
        case 0: guarded(ch, false, [&] { (void)(ca + cb); }); break;
        case 1: guarded(ch, false, [&] { (void)(ca - cb); }); break;
        case 2: guarded(ch, false, [&] { (void)dot(ca, cb); }); break;
        case 3: guarded(ch, false, [&] { (void)ca.dot(cb); }); break;
        case 4: guarded(ch, false, [&] { axpy(T(2), ca, b); }); break;
        case 5: guarded(ch, false, [&] { neg(ca, b); b = DynVec<T>(vb); }); break;
        case 6: guarded(ch, false, [&] { add(ca, cb, a); }); break;
        default: guarded(ch, false, [&] { sub(ca, cb, b); }); break;
    }
    expect_unchanged(ch, "first operand", a, va); expect_unchanged(ch, "second operand", b, vb);
}
template<size_t N> static void far_mixed(Ch& ch, int nd, int op) {
    using S = SizedVec<T, N>; using D = DynVec<T>;
    if (op == 0) three<S, D, S>(ch, N, nd, N, true, 0); else if (op == 1) three<D, S, S>(ch, nd, N, N, false, 0); else if (op == 2) three<S, D, S>(ch, N, nd, N, false, 1); else if (op == 3) three<D, S, S>(ch, nd, N, N, true, 2);
    else {
        V va = mc::vals<T>(0, N, 0), vb = mc::vals<T>(0, nd, 1); S s = mkvec<S>(va); D d(vb);
        if (op == 4) guarded(ch, false, [&] { (void)s.dot(d); }); else if (op == 5) guarded(ch, false, [&] { (void)d.dot(s); });
        else { bool threw = false; ch.op(); try { S x(vb); } catch (const std::runtime_error&) { threw = true; } if (!threw) ch.fail("a vector of %zu components was built from %d", N, nd); }
        expect_unchanged(ch, "fixed operand", s, va); expect_unchanged(ch, "dynamic operand", d, vb);
    }
}
FAMILY(far_apart_mixed) {
    size_t n = ch.of(sized_sizes()); int by = ch.of({256, 512, 32768, 65536, 65536 + 256, 131072}), op = ch.pick(7);
    if (!ch.go()) return;
    mc::dispatch<SIZED_LIST>(ch, n, [&]<size_t N>() { far_mixed<N>(ch, (int)N + by, op); });
}
