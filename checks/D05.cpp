// D05: matrix addition, subtraction, negation and scaling.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;

static const std::vector<int>& dims() { static const std::vector<int> a = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33}, b = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 64, 100, 257}; return mc::thorough() ? b : a; }

template<class C> void cmp(Ch& ch, const C& c, const Plain& a, const Plain& b, bool isadd) {
    auto s = c.shape(); if (s.first != a.n || s.second != a.m) ch.fail("shape %zux%zu", s.first, s.second);
    for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < a.m; ++j)
        mc::expect<T>(ch, "element", i * a.m + j, c(i, j), isadd ? mc::wide(a(i, j)) + mc::wide(b(i, j)) : mc::wide(a(i, j)) - mc::wide(b(i, j)), mag(a(i, j)) + mag(b(i, j)), 2);
}
template<class A, class B, class C> void addsub(Ch& ch, const Plain& pa, const Plain& pb, bool isadd, int alias) {
    A a = mkmat<A>(pa); B b = mkmat<B>(pb); Plain pc = pmat(0, pa.n, pa.m, 9); C c = mkmat<C>(pc);
    auto call = [&](const auto& x, const auto& y, auto& z) { ch.op(); auto& r = isadd ? add(x, y, z) : sub(x, y, z); ch.check((const void*)&r == (const void*)&z, "the returned reference is not the destination"); };
    if (alias == 0) { call(a, b, c); cmp(ch, c, pa, pb, isadd); expect_mat(ch, "first operand", a, pa); expect_mat(ch, "second operand", b, pb); return; }
    if constexpr (std::is_same_v<A, C>) if (alias == 1) { call(a, b, a); cmp(ch, a, pa, pb, isadd); expect_mat(ch, "second operand", b, pb); return; }
    if constexpr (std::is_same_v<B, C>) if (alias == 2) { call(a, b, b); cmp(ch, b, pa, pb, isadd); expect_mat(ch, "first operand", a, pa); return; }
    if constexpr (std::is_same_v<A, B>) if (alias == 3) { call(a, a, c); cmp(ch, c, pa, pa, isadd); expect_mat(ch, "operand", a, pa); return; }
    if constexpr (std::is_same_v<A, B> && std::is_same_v<A, C>) if (alias == 4) { call(a, a, a); cmp(ch, a, pa, pa, isadd); return; }
}
template<class A> void operators(Ch& ch, const Plain& pa, const Plain& pb, int op, T al) {
    A a = mkmat<A>(pa), b = mkmat<A>(pb);
    ch.op();
    auto prod = [&](const A& r, T k) {
        auto s = r.shape(); if (s.first != pa.n || s.second != pa.m) ch.fail("shape %zux%zu", s.first, s.second);
        for (size_t i = 0; i < pa.n; ++i) for (size_t j = 0; j < pa.m; ++j) mc::expect<T>(ch, "element", i * pa.m + j, r(i, j), mc::wide(k) * mc::wide(pa(i, j)), mag(k) * mag(pa(i, j)), CX ? 8 : 2);
    };
    switch (op) {
        case 0: { A r = a + b; cmp(ch, r, pa, pb, true); break; }
        case 1: { A r = a - b; cmp(ch, r, pa, pb, false); break; }
        case 2: { A r = a + a; cmp(ch, r, pa, pa, true); break; }
        case 3: { A r = a - a; cmp(ch, r, pa, pa, false); break; }
        case 4: if constexpr (!CX) { A r = -a; prod(r, T(-1)); } break;
        case 5: { A r = al * a; prod(r, al); break; }
        case 6: { auto& r = scale(al, a); ch.check(&r == &a, "the returned reference is not the matrix"); prod(a, al); a = mkmat<A>(pa); break; }
        case 7: { if (pa.e.empty()) break; T k = a(0, 0); A r = a(0, 0) * a; prod(r, k); break; }
    }
    expect_mat(ch, "first operand", a, pa); expect_mat(ch, "second operand", b, pb);
}
FAMILY(dyn_add_sub) {
    int n = ch.of(dims()), m = ch.of(dims()), pat = ch.pick(mc::NPAT); bool s = ch.pick(2); int alias = ch.pick(5);
    if (!ch.go()) return;
    ch.note("%s %dx%d pattern %d alias %d", s ? "add" : "sub", n, m, pat, alias);
    addsub<DM, DM, DM>(ch, pmat(pat, n, m, 1), pmat(pat, n, m, 2), s, alias);
}
FAMILY(dyn_operators) {
    int n = ch.of(dims()), m = ch.of(dims()), pat = ch.pick(mc::NPAT), op = ch.pick(8); int k = op == 5 || op == 6 ? ch.pick(mc::NSCALAR) : 0;
    if (!ch.go()) return;
    ch.note("operation %d %dx%d pattern %d scalar %d", op, n, m, pat, k);
    operators<DM>(ch, pmat(pat, n, m, 1), pmat(pat, n, m, 2), op, mc::scalar<T>(k));
}
FAMILY(large) {
    static const std::vector<std::pair<int, int>> sh = {{1, 4096}, {4097, 1}, {1, 65}, {64, 64}, {65, 63}, {100, 100}, {127, 129}, {128, 128}, {31, 33}, {257, 255}, {2, 1025}, {1000, 3}, {300, 300}, {511, 513}};
    auto s = ch.of(sh); int pat = ch.of({0, 1}), what = ch.pick(2), alias = what ? 0 : ch.pick(5), plus = what ? 0 : ch.pick(2), op = what ? ch.pick(8) : 0, k = op == 5 || op == 6 ? ch.pick(mc::NSCALAR) : 0;
    if (!ch.go()) return;
    ch.note("%dx%d pattern %d alias %d operation %d", s.first, s.second, pat, alias, op);
    Plain a = pmat(pat, s.first, s.second, 1), b = pmat(pat, s.first, s.second, 2);
    if (what) operators<DM>(ch, a, b, op, mc::scalar<T>(k)); else addsub<DM, DM, DM>(ch, a, b, plus, alias);
}
FAMILY(scalar_magnitudes) {
    int n = ch.of({0, 1, 2, 3, 17}), m = ch.of({1, 2, 4, 16}), e = ch.range(-4, 4), pat = ch.of({0, 1, 3, 4, 5, 6}), op = ch.of({5, 6});
    if (!ch.go()) return;
    operators<DM>(ch, pmat(pat, n, m, 1), pmat(pat, n, m, 2), op, pow2_times(T(-3), e * mc::mag_exp<R>() / 4));
}
FAMILY(sized) {
    auto s = ch.of(sized_shapes()); int pat = ch.pick(mc::NPAT), what = ch.pick(4); bool plus = ch.pick(2); int alias = what < 3 ? ch.pick(5) : 0, op = what == 3 ? ch.pick(8) : 0, k = op == 5 || op == 6 ? ch.pick(mc::NSCALAR) : 0;
    if (!ch.go()) return;
    ch.note("fixed-size %dx%d pattern %d mix %d alias %d operation %d", s.first, s.second, pat, what, alias, op);
    at_shape(s, [&]<size_t N, size_t M>() {
        Plain a = pmat(pat, N, M, 1), b = pmat(pat, N, M, 2); using S = SM<N, M>;
        if (what == 0) addsub<S, S, S>(ch, a, b, plus, alias);
        else if (what == 1) addsub<S, DM, S>(ch, a, b, plus, alias);
        else if (what == 2) addsub<DM, S, S>(ch, a, b, plus, alias);
        else operators<S>(ch, a, b, op, mc::scalar<T>(k));
    });
}
// contents with structure a short cut could look for, the second operand also equal, opposite or transposed, at most one element off
FAMILY(structured) {
    int n = ch.of({1, 2, 3, 4, 5, 9, 17}), m = ch.of({0, 1, 2, 3, 4, 5, 9, 17}); if (!m) m = n; int ka = ch.pick(STRUCTURES), kb = ch.pick(STRUCTURES + 3), off = ch.of({0, 2, 5, 6}), k = ch.pick(4);
    if (!ch.go()) return;
    Plain a = structured(ka, n, m, 1), b = kb < STRUCTURES ? structured(kb, n, m, 2) : a;
    if (kb == STRUCTURES + 1) for (auto& x: b.e) x = -x;
    if (kb == STRUCTURES + 2 && n == m) b = transposed(b);
    b = flawed(b, off);
    ch.note("%dx%d structures %d and %d, flaw %d", n, m, ka, kb, off);
    if (k < 2) { addsub<DM, DM, DM>(ch, a, b, k == 0, 0); addsub<DM, DM, DM>(ch, a, b, k == 0, 1); addsub<DM, DM, DM>(ch, a, b, k == 0, 2); }
    else if (kb < STRUCTURES) { operators<DM>(ch, b, a, 3 + k, mc::scalar<T>(ka % mc::NSCALAR)); operators<DM>(ch, b, a, 4, T(1)); }
}
