// O01: Gram-Schmidt orthogonalisation
#include "../mc/solve.hpp"
#include "lalib/ops/orthogonal.hpp"
#include <deque>
#include <span>
using namespace lalib;

using Set = std::vector<V>;
template<class C> void check(Ch& ch, C& c, const Set& a, LD k) {
    const size_t m = a.size(), n = m ? a[0].size() : 0;
    ch.op();
    orth::cgs(c);
    if ((size_t)std::size(c) != m) ch.fail("the number of vectors changed");
    std::vector<std::vector<LD>> v(m);
    for (size_t j = 0; j < m; ++j) {
        if (c[j].size() != n) ch.fail("vector %zu has length %zu", j, (size_t)c[j].size());
        for (size_t i = 0; i < n; ++i) { if (!std::isfinite((double)c[j][i])) ch.fail("component %zu of vector %zu is %g", i, j, (double)c[j][i]); v[j].push_back(c[j][i]); ch.out((double)c[j][i]); }
    }
    if (m) expect_unchanged(ch, "first vector", c[0], a[0]);
    auto dot = [&](const std::vector<LD>& x, const std::vector<LD>& y) { LD s = 0; for (size_t i = 0; i < n; ++i) s += x[i] * y[i]; return s; };
    auto nrm = [&](const std::vector<LD>& x) { return std::sqrt(dot(x, x)); };
    for (size_t j = 0; j < m; ++j) {
        std::vector<LD> aj(a[j].begin(), a[j].end()), d(n);
        for (size_t i = 0; i < j; ++i) {
            if (mc::me()) mc::me()->checks++;
            LD x = dot(v[i], v[j]);
            if (!(std::fabs(x) <= k * mc::eps<T>() * nrm(v[i]) * nrm(aj))) ch.fail("vectors %zu and %zu are not orthogonal: inner product %Lg, lengths %Lg and %Lg", i, j, x, nrm(v[i]), nrm(v[j]));
        }
        // a_j - v_j is a combination of the earlier ones (and v_j is not degenerate)
        for (size_t i = 0; i < n; ++i) d[i] = aj[i] - v[j][i];
        for (size_t r = 0; r < 2; ++r) for (size_t q = 0; q < j; ++q) { LD f = dot(d, v[q]) / dot(v[q], v[q]); for (size_t i = 0; i < n; ++i) d[i] -= f * v[q][i]; }
        if (!(nrm(d) <= k * mc::eps<T>() * nrm(aj))) ch.fail("vector %zu is not its original minus a combination of the earlier ones (off by %Lg)", j, nrm(d));
        if (!(nrm(v[j]) > 1e-4L * nrm(aj))) ch.fail("vector %zu vanished", j);
    }
}
#define ON 1, 2, 3, 4, 5, 8
// container 0: vector<DynVec>, 1: deque<DynVec>, 2: span<DynVec>, 3: vector<SizedVec>, 4: array<SizedVec>
constexpr int CONT = 5;
static bool sized_ok(size_t n) { for (size_t q: {ON}) if (q == n) return true; return false; }
static void run(Ch& ch, int cont, const Set& a, size_t n, LD k) {
    ch.note("%zu vectors of length %zu in container %d", a.size(), n, cont);
    if (mc::verbose()) for (auto& v: a) { std::string s; for (auto& x: v) s += " " + mc::str((mc::Wide<T>)x); ch.note("(%s )", s.c_str()); }
    if (cont == 0) { std::vector<DV> c; for (auto& v: a) c.emplace_back(v); check(ch, c, a, k); }
    else if (cont == 1) { std::deque<DV> c; for (auto& v: a) c.emplace_back(v); check(ch, c, a, k); }
    else if (cont == 2) { std::vector<DV> c; for (auto& v: a) c.emplace_back(v); std::span<DV> s(c); check(ch, s, a, k); }
    else if (sized_ok(n)) mc::dispatch<ON>(ch, n, [&]<size_t N>() {
        if (cont == 3) { std::vector<SV<N>> c; for (auto& v: a) c.emplace_back(mkvec<SV<N>>(v)); check(ch, c, a, k); }
        else {
            auto go = [&]<size_t M>() { if constexpr (M <= N) { [&]<size_t... I>(std::index_sequence<I...>) { std::array<SV<N>, M> c{mkvec<SV<N>>(a[I])...}; check(ch, c, a, k); }(std::make_index_sequence<M>()); } };
            for (size_t q: {ON}) if (q == a.size()) mc::dispatch<ON>(ch, a.size(), go);
        }
    });
}
static bool independent(const std::vector<int>& g, int m) {      // Gram matrix minors
    auto x = leading_minors(g, m); for (auto v: x) if (v == 0) return false; return true;
}
// every vector may be multiplied by its own power of two: the same problem
static void ints(Ch& ch, int n, int m, const std::vector<int>& vals, bool scaled = false) {
    int cont = scaled ? ch.of({0, 4}) : ch.pick(CONT), gr = scaled ? 1 + ch.pick(GRADES - 1) : 0; Set a(m); std::vector<std::vector<int>> ia(m);
    for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { int v = ch.of(vals); ia[j].push_back(v); a[j].push_back(pow2_times((T)v, 2 * grade(gr, j, m))); }
    if (!ch.go()) return;
    std::vector<int> g; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { int s = 0; for (int q = 0; q < n; ++q) s += ia[i][q] * ia[j][q]; g.push_back(s); }
    if (!independent(g, m)) return;
    run(ch, cont, a, n, 4000);
}
FAMILY(none_or_one) {
    int cont = ch.pick(3), m = ch.pick(2); size_t n = ch.of({1, 2, 5, 64}); int pat = ch.pick(4);
    if (!ch.go()) return;
    Set a; if (m) { a.push_back(mc::vals<T>(pat, n, 3)); a[0][n / 2] = T(1); }
    run(ch, cont, a, n, 8);
    if (cont == 0 && !m) { std::vector<SV<3>> e; orth::cgs(e); if (!e.empty()) ch.fail("an empty sequence grew"); }
}
FAMILY(one_in_zero_dimensions) { if (!ch.go()) return; std::vector<DV> c; c.emplace_back(V{}); orth::cgs(c); if (c.size() != 1 || c[0].size()) ch.fail("changed"); }
FAMILY(dim1) { ints(ch, 1, 1, {-2, -1, 1, 3}); }
FAMILY(two_in_dim2) { ints(ch, 2, 2, {-3, -1, 0, 1, 2}); }
FAMILY(two_in_dim3) { ints(ch, 3, 2, {-1, 0, 2}); }
FAMILY(three_in_dim3) { ints(ch, 3, 3, {-1, 0, 1}); }
FAMILY(three_in_dim4) { ints(ch, 4, 3, {0, 1}); }
FAMILY_T(three_in_dim4_more) { ints(ch, 4, 3, {-1, 0, 1}); }
FAMILY(four_in_dim4) { ints(ch, 4, 4, {0, 1}); }
FAMILY(generic) {
    int cont = ch.pick(CONT); size_t n = 1 + ch.pick(mc::thorough() ? 48 : 24), m = 1 + ch.pick((int)n); int kind = ch.pick(4);
    if (!ch.go()) return;
    Set a;
    for (size_t j = 0; j < m; ++j) {
        V v = mc::vals<T>(kind == 3 ? 3 : 1, n, 10 + (int)j); v[j] += T(kind == 1 ? -(double)n : (double)n);
        if (kind == 2) for (auto& x: v) x *= (T)std::ldexp(1.0, (int)(j % 7) * 3 - 9);
        a.push_back(v);
    }
    run(ch, cont, a, n, 200 * (LD)m * m);
}
// long vectors: the kernels behind the inner products and updates change with the length
FAMILY(long_vectors) {
    size_t n = ch.of({63, 64, 65, 127, 128, 129, 255, 257, 1000, 1025, 5000, 10001, 65537, 70001}), m = ch.of({2, 3, 5}); int cont = ch.pick(2);
    if (!ch.go()) return;
    Set a; for (size_t j = 0; j < m; ++j) a.push_back(mc::vals<T>(1, n, 20 + (int)j));
    run(ch, cont, a, n, 400 * (LD)m * m + n);
}

FAMILY(scaled_two_in_dim2) { ints(ch, 2, 2, {-3, -1, 0, 1, 2}, true); }
FAMILY(scaled_two_in_dim3) { ints(ch, 3, 2, {-1, 0, 2}, true); }
FAMILY(scaled_three_in_dim3) { ints(ch, 3, 3, {-1, 0, 1}, true); }
FAMILY(scaled_generic) {
    int cont = ch.pick(CONT); size_t n = 1 + ch.pick(12), m = 1 + ch.pick((int)n); int kind = ch.pick(2), gr = 1 + ch.pick(GRADES - 1);
    if (!ch.go()) return;
    Set a;
    for (size_t j = 0; j < m; ++j) { V v = mc::vals<T>(1, n, 10 + (int)j); v[j] += T(kind ? -(double)n : (double)n); for (auto& x: v) x = pow2_times(x, 2 * grade(gr, j, m)); a.push_back(v); }
    run(ch, cont, a, n, 200 * (LD)m * m);
}
FAMILY(many) {
    size_t n = ch.of({31, 32, 33, 64, 65, 100, 129}), m = ch.of({8, 16, 17, 31}); int cont = ch.pick(2);
    if (!ch.go()) return;
    Set a; for (size_t j = 0; j < m; ++j) { V v = mc::vals<T>(1, n, 10 + (int)j); v[j] += T(n); a.push_back(v); }
    run(ch, cont, a, n, 200 * (LD)m * m);
}
