// T02: back substitution on every kind of right-hand side.
#include "mats.hpp"
#include <deque>
#include <ranges>
#include <span>
using namespace lalib;
using mc::Ch;
using U = DynUpperTriMat<T>;

static V packed_up(const Plain& p) { V v; for (size_t j = 0; j < p.n; ++j) for (size_t i = 0; i <= j; ++i) v.push_back(p(i, j)); return v; }
// componentwise backward error of the computed solution: holds for any substitution order, needs no condition number
template<class Y> void expect_solution(Ch& ch, const Y& x, const Plain& r, const V& b) {
    size_t n = r.n;
    for (size_t i = 0; i < n; ++i) {
        W s = 0; long double sc = mag(b[i]), u = 2;
        for (size_t j = i; j < n; ++j) { s += mc::wide(r(i, j)) * mc::wide(T(x[j])); sc += mag(r(i, j)) * mag(T(x[j])); u += mag(r(i, j)); }
        if (!std::isfinite((double)std::abs(mc::wide(T(x[i]))))) ch.fail("component %zu of the solution is not finite", i);
        long double d = std::abs(s - mc::wide(b[i]));
        if (mc::me()) mc::me()->checks++;
        if (d > (n + (CX ? 24 : 8)) * (mc::eps<T>() * sc + u * std::numeric_limits<R>::denorm_min())) ch.fail("row %zu of R*x differs from the right-hand side by %Lg (scale %Lg)", i, d, sc);
        mc::outv(ch, T(x[i]));
    }
}
constexpr int NKIND = 10;
// solves into a right-hand side of the given kind, checks the solution, guards around it and the matrix
static void solve(Ch& ch, const Plain& r, const V& b, int kind, int wrong) {
    U u(packed_up(r)); const U& cu = u;
    size_t n = r.n, len = wrong < 0 ? n : (size_t)wrong;
    V y(len); for (size_t i = 0; i < len; ++i) y[i] = i < b.size() ? b[i] : mc::val<T>(0, i, 9);
    V before = y, guard = mc::vals<T>(0, 3, 8);
    bool threw = false;
    auto run = [&](auto&& v) { ch.op(); try { cu.back_sub(std::forward<decltype(v)>(v)); } catch (const std::invalid_argument&) { threw = true; } };
    auto finish = [&](const auto& x) {
        if (threw != (len != n)) ch.fail("a right-hand side of %zu elements for %zu unknowns is %s", len, n, threw ? "rejected" : "accepted");
        if (threw) { for (size_t i = 0; i < len; ++i) mc::expect_same<T>(ch, "rejected right-hand side", i, x[i], before[i]); }
        else expect_solution(ch, x, r, b);
    };
    // framed: y between guard elements
    V fr(guard); fr.insert(fr.end(), y.begin(), y.end()); fr.insert(fr.end(), guard.begin(), guard.end());
    auto guards = [&](const auto& f) { for (size_t i = 0; i < 3; ++i) { mc::expect_same<T>(ch, "element before the view", i, f[i], guard[i]); mc::expect_same<T>(ch, "element after the view", i, f[3 + len + i], guard[i]); } };
    switch (kind) {
        case 0: run(y); finish(y); break;
        case 1: { DV d(y); run(d); if (d.size() != len) ch.fail("length changed"); finish(d); break; }
        case 2: { run(std::span<T>(fr.data() + 3, len)); finish(std::span<T>(fr.data() + 3, len)); guards(fr); break; }
        case 3: { run(fr | std::views::drop(3) | std::views::take(len)); finish(std::span<T>(fr.data() + 3, len)); guards(fr); break; }
        case 4: { std::deque<T> q(y.begin(), y.end()); run(q); finish(q); break; }
        case 5: { std::span<T> s(fr.data() + 3, len); run(s); finish(s); guards(fr); break; }
        case 6: { V rv(y.rbegin(), y.rend()); run(rv | std::views::reverse); V x(rv.rbegin(), rv.rend()); finish(x); break; }
        case 7: { run(std::ranges::subrange(fr.begin() + 3, fr.begin() + 3 + len)); finish(std::span<T>(fr.data() + 3, len)); guards(fr); break; }
        case 8: { if (len == 3) { std::array<T, 3> a{y[0], y[1], y[2]}; run(a); finish(a); SV<3> s(y); threw = false; run(s); finish(s); } break; }
        case 9: { y.reserve(len + 5); run(y | std::views::take(len)); finish(y); break; }
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) mc::expect_same<T>(ch, "the matrix", i * n + j, cu(i, j), r(i, j));
}
FAMILY(small_exhaustive) {       // all 3x3 upper triangles over a small alphabet
    int n = ch.of({1, 2, 3}); Plain r(n, n);
    static const double off[] = {0, 1, -2}, dg[] = {1, -2, 3};
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { int k = ch.pick(3); r(i, j) = i == j ? cplx(dg[k], k == 2 ? 1 : 0) : cplx(off[k], k == 1 ? -1 : 0); }
    int rhs = ch.pick(5);
    if (!ch.go()) return;
    // 3, 4: the solution is chosen, with components that are zero; everything is a small integer, so no rounding
    V xs(n); for (int i = 0; i < n; ++i) xs[i] = cplx((i + rhs) % 2 ? 0 : 2 - 3 * (i / 2), (i + rhs) % 2 || i % 3 == 0 ? 0 : 1);
    V px(n, T(0)); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) px[i] += r(i, j) * xs[j];
    V b = rhs >= 3 ? px : rhs == 0 ? mc::vals<T>(0, n, 2) : rhs == 1 ? mc::vals<T>(1, n, 2) : V(n, T(0));
    ch.note("n=%d R=%s b=%s", n, mc::dump(r.e).c_str(), mc::dump(b).c_str());
    solve(ch, r, b, 0, -1);
}
FAMILY(kinds) {
    int n = ch.of(mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 64, 100} : std::vector<int>{0, 1, 2, 3, 4, 5, 8, 16, 17, 33}); int kind = ch.pick(NKIND), pat = ch.pick(4);
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = mc::val<T>(pat, i * n + j, 3) * (i == j ? T(1) : T(R(1) / (n > 33 ? 1 << 20 : n > 8 ? 8 : 1)));
    for (int i = 0; i < n; ++i) if (r(i, i) == T(0) || mag(r(i, i)) < 0.01) r(i, i) = T(i % 2 ? 2 : -3);
    ch.note("n=%d kind of right-hand side %d pattern %d", n, kind, pat);
    solve(ch, r, mc::vals<T>(pat, n, 4), kind, -1);
}
// rows and columns multiplied by powers of two, right-hand sides that are zero in part, any magnitude
FAMILY(scaled) {
    int n = ch.of({1, 2, 3, 5, 9, 17}), rg = ch.pick(GRADES), cg = ch.pick(GRADES), z = ch.pick(ZEROS), pat = ch.of({1, 4, 5, 6}), kind = ch.of({0, 1});
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? T(i % 2 ? 2 : -3) : mc::val<T>(1, i * n + j, 3) * T(R(1) / (n > 8 ? 8 : 1));
    ch.note("n=%d gradings %d %d, zeros %d, pattern %d", n, rg, cg, z, pat);
    solve(ch, graded(r, rg, cg), zeroed(pmat(pat, n, 1, 4), z).e, kind, -1);
}
FAMILY(large) {
    int n = ch.of({63, 64, 65, 100, 127, 128, 129, 200, 257, 300, 400}), z = ch.of({0, 5, 6}), pat = ch.of({0, 1}), kind = ch.of({0, 1, 4});
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? T(i % 2 ? 2 : -3) : mc::val<T>(1, i * n + j, 3) * T(R(0.125));
    solve(ch, r, zeroed(pmat(pat, n, 1, 4), z).e, kind, -1);
}
FAMILY(wrong_length) {
    int n = ch.pick(8), len = ch.pick(10), kind = ch.pick(NKIND);
    if (!ch.go()) return;
    if (n == len) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? T(2) : T(1);
    ch.note("n=%d right-hand side of %d, kind %d", n, len, kind);
    solve(ch, r, mc::vals<T>(0, len, 4), kind, len);
}
// the matrix comes from a history of extensions instead of packed data
FAMILY(extended) {
    int n = ch.pick(7), pat = ch.pick(2), how = ch.pick(3);
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? T(2 + i) : mc::val<T>(pat, i * n + j, 3);
    U u = U::with_capacity(how);
    for (int j = 0; j < n; ++j) {
        ch.op();
        if (how == 0) { V c; for (int i = 0; i <= j; ++i) c.push_back(r(i, j)); u.extend_with(std::move(c)); }
        else { u.extend_with_zero(); for (int i = 0; i <= j; ++i) { if (how == 1) u(i, j) = r(i, j); else u.mut_at(i, j) = r(i, j); } }
    }
    V b = mc::vals<T>(pat, n, 4), y = b; u.back_sub(y);
    ch.note("n=%d built by %d", n, how);
    expect_solution(ch, y, r, b);
}
// every right-hand side over a small alphabet that contains zero: components of the solution vanish in every position
FAMILY(every_right_hand_side) {
    int n = ch.of({1, 2, 3, 4}), kind = ch.of({0, 1}), m = ch.pick(4); V b(n);
    for (int i = 0; i < n; ++i) b[i] = ch.of({T(0), T(-1), T(2)});
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? (m % 2 ? T(1 << i % 2) : cplx(i % 2 ? -2 : 3, i == 1 ? 1 : 0)) : m == 0 ? T(1) : m == 1 ? T(R((i + j) % 3) - 1) : m == 2 ? mc::val<T>(1, i * n + j, 3) : T(-1);
    solve(ch, r, b, kind, -1);
}
// the solution is planted: zero in every subset of the positions
FAMILY(planted) {
    int n = 1 + ch.pick(6), zeros = ch.pick(1 << n), m = ch.pick(3), kind = ch.of({0, 1, 2});
    if (!ch.go()) return;
    Plain r(n, n); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r(i, j) = i == j ? T(i % 2 ? -2 : m + 1) : m == 2 && (i + j) % 2 ? T(0) : cplx((i * 3 + j) % 5 - 2, (i + j) % 2);
    V b(n, T(0)); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) if (!(zeros >> j & 1)) b[i] += r(i, j) * cplx(j % 3 - 3, j % 2);
    solve(ch, r, b, kind, -1);
}
