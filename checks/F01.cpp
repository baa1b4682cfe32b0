// F01: Cholesky factorisation
#include "../mc/solve.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib;
using namespace lalib::solver;
using Dense = DynCholeskyFactorization<T>;
using Packed = DynTriCholeskyFactorization<T>;

static Packed mk_packed(const Plain& a) { V l; for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j <= i; ++j) l.push_back(a(i, j)); DynHermiteMat<T> h(a.n, std::move(l)); return Packed(std::move(h)); }
static Dense mk_dense(const Plain& a) { DM m(a.n, a.n, a.e); return Dense(std::move(m)); }
static LM lower(const Dense& f, size_t n) { LM l(n * n, 0); auto& m = f.factor_mat(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) l[i * n + j] = m(i, j); return l; }
static LM lower(const Packed& f, size_t n) { LM l(n * n, 0); auto& m = f.lower_mat(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) l[i * n + j] = m(i, j); return l; }
static void packed_shape(Ch& ch, const Packed& f, size_t n) { auto s = f.lower_mat().shape(); if (s.first != n || s.second != n) ch.fail("factor has shape %zux%zu", s.first, s.second); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (f.lower_mat()(i, j) != T(0)) ch.fail("the factor is not lower triangular"); }
static void packed_shape(Ch& ch, const Dense& f, size_t n) { auto s = f.factor_mat().shape(); if (s.first != n || s.second != n) ch.fail("factor has shape %zux%zu", s.first, s.second); }

template<class F> void accepted(Ch& ch, const F& f, const Plain& a, int pat, int salt, size_t columns = 0) {
    const size_t n = a.n; LM A = wide_of(a), L = lower(f, n), U(n * n, 0);
    packed_shape(ch, f, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) U[j * n + i] = L[i * n + j];
    LM P = prod(L, U, n), S = absprod(L, U, n);
    const LD k = 4 * n + 8;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (mc::me()) mc::me()->checks++;
        if (!(std::fabs(P[i * n + j] - A[i * n + j]) <= k * mc::eps<T>() * S[i * n + j])) ch.fail("(L L^T)(%zu,%zu) is %Lg, the matrix has %Lg", i, j, P[i * n + j], A[i * n + j]);
        ch.out((double)L[i * n + j]);
    }
    for (size_t i = 0; i < n; ++i) if (!(L[i * n + i] > 0)) ch.fail("diagonal %zu of the factor is %Lg", i, L[i * n + i]);
    if (columns) { solve_columns(ch, f, A, S, n, columns, 2 * k, pat, salt, salt % ZEROS); if (columns == 4) solve_columns_sized(ch, f, A, S, n, 2 * k, pat, salt); }
    else solves(ch, f, A, S, n, 2 * k, pat, salt);
    if (lower(f, n) != L) ch.fail("solving changed the factor");
}
enum { ACCEPT = 1, REJECT = 2 };
template<class Mk> void one(Ch& ch, Mk&& mk, const Plain& a, int allowed, int pat, int salt) {
    ch.op();
    try {
        auto f = mk(a);
        if (!(allowed & ACCEPT)) ch.fail("a matrix that is not positive definite was accepted");
        if (allowed == ACCEPT) accepted(ch, f, a, pat, salt);
    } catch (const std::runtime_error& e) {
        if (!(allowed & REJECT)) ch.fail("a positive definite matrix was rejected: %s", e.what());
        ch.out(-1);
    }
}
static void both(Ch& ch, int which, const Plain& a, int allowed, int pat, int salt) {
    if (mc::verbose()) for (size_t i = 0; i < a.n; ++i) { std::string s; for (size_t j = 0; j < a.n; ++j) s += " " + mc::str((mc::Wide<T>)a(i, j)); ch.note("[%s ]", s.c_str()); }
    if (which == 0) one(ch, mk_dense, a, allowed, pat, salt); else one(ch, mk_packed, a, allowed, pat, salt);
}
// what the outcome of the construction must be, from exact leading minors
static int verdict(const std::vector<int>& a, int n) {
    auto m = leading_minors(a, n);
    bool exact = true;
    for (int k = 0; k < n; ++k) {
        if (m[k] < 0) return REJECT;                                    // the pivot m[k]/m[k-1] is at most -1/(small)
        if (m[k] == 0) return exact ? REJECT : ACCEPT | REJECT;         // zero up to rounding: either outcome
        exact = exact && pow4((LD)m[k] / (k ? (LD)m[k - 1] : 1));       // square roots and quotients so far are exact
    }
    return ACCEPT;
}
FAMILY(integer_1x1) {
    int which = ch.pick(2), v = ch.range(-6, 9), pat = ch.of({0, 1, 2, 3});
    if (!ch.go()) return;
    both(ch, which, Plain(1, 1, V{(T)v}), verdict({v}, 1), pat, v + 10);
}
FAMILY(integer_2x2) {
    int which = ch.pick(2), a = ch.range(-2, 9), b = ch.range(-2, 9), c = ch.range(-4, 4);
    if (!ch.go()) return;
    std::vector<int> m = {a, c, c, b};
    both(ch, which, Plain(2, 2, V(m.begin(), m.end())), verdict(m, 2), 1, a);
}
FAMILY(integer_3x3) {
    static const int dq[] = {-1, 0, 1, 2, 4}, dt[] = {-2, -1, 0, 1, 2, 3, 4, 5, 9};
    const int *d = mc::thorough() ? dt : dq, nd = mc::thorough() ? 9 : 5;
    int which = ch.pick(2), a = d[ch.pick(nd)], b = d[ch.pick(nd)], c = d[ch.pick(nd)], x = ch.range(-2, 2), y = ch.range(-2, 2), z = ch.range(-2, 2);
    if (!ch.go()) return;
    std::vector<int> m = {a, x, y, x, b, z, y, z, c};
    both(ch, which, Plain(3, 3, V(m.begin(), m.end())), verdict(m, 3), (a + b) % 2 ? 1 : 0, 3);
}
FAMILY(integer_4x4) {
    int which = ch.pick(2), d = ch.pick(16), o = ch.pick(729);
    if (!ch.go()) return;
    std::vector<int> m(16, 0); static const int dd[] = {1, 2};
    for (int i = 0; i < 4; ++i) m[i * 5] = dd[d >> i & 1];
    int k = o; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { m[i * 4 + j] = m[j * 4 + i] = k % 3 - 1; k /= 3; }
    both(ch, which, Plain(4, 4, V(m.begin(), m.end())), verdict(m, 4), 1, 5);
}
// any size
static size_t top() { return mc::thorough() ? 40 : 20; }
FAMILY(positive_definite) {
    int which = ch.pick(2); size_t n = 1 + ch.pick((int)top()); int kind = ch.pick(SPD), pat = ch.of({0, 1, 2}), salt = ch.pick(2);
    if (!ch.go()) return;
    both(ch, which, spd(kind, n, salt), ACCEPT, pat, salt + 20);
}
// the k-th leading minor is the first that fails: the pivot is made clearly negative, the ones before stay positive
FAMILY(first_failure_anywhere) {
    int which = ch.pick(2); size_t n = 1 + ch.pick((int)top() - 4), k = ch.pick((int)n); int kind = ch.pick(SPD), how = ch.pick(2);
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1); LM A = wide_of(a), L(n * n, 0);
    for (size_t i = 0; i <= k; ++i) for (size_t j = 0; j <= i; ++j) {
        LD s = A[i * n + j]; for (size_t q = 0; q < j; ++q) s -= L[i * n + q] * L[j * n + q];
        if (i == j) { if (i == k) { LD m = how ? 0.25L * std::fabs(A[k * n + k]) + 0.125L : std::fabs(s); a(k, k) = (T)(A[k * n + k] - s - m); } else L[i * n + i] = std::sqrt(s); }
        else L[i * n + j] = s / L[j * n + j];
    }
    ch.note("pivot %zu of %zu is negative", k, n);
    both(ch, which, a, REJECT, 1, 0);
}
// singular with an exactly zero pivot k (L has power-of-two diagonal and integer entries)
FAMILY(exact_zero_pivot) {
    int which = ch.pick(2); size_t n = 1 + ch.pick(8), k = ch.pick((int)n); int salt = ch.pick(3);
    if (!ch.go()) return;
    std::vector<long> l(n * n, 0); Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) l[i * n + j] = i == j ? (i == k ? 0 : 1 << ((i + salt) % 3)) : (long)((i * 5 + j * 3 + salt) % 7) - 3;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { long s = 0; for (size_t q = 0; q < n; ++q) s += l[i * n + q] * l[j * n + q] * (q == k && i != j ? 1 : 1); a(i, j) = (T)s; }
    both(ch, which, a, REJECT, 1, 0);
}

// D A D with a power-of-two diagonal D: exact, so the verdict and the bounds carry over
FAMILY(scaled_integer_2x2) {
    int which = ch.pick(2), g = 1 + ch.pick(GRADES - 1), a = ch.range(-1, 5), b = ch.range(-1, 5), c = ch.range(-2, 3);
    if (!ch.go()) return;
    std::vector<int> m = {a, c, c, b};
    ch.note("grading %d", g);
    both(ch, which, graded(Plain(2, 2, V(m.begin(), m.end())), g, g), verdict(m, 2), g % 2 ? 6 : 1, a + 2);
}
FAMILY(scaled_integer_3x3) {
    int which = ch.pick(2), g = 1 + ch.pick(GRADES - 1), a = ch.of({1, 2, 4}), b = ch.of({0, 1, 4}), c = ch.of({-1, 1, 2, 4}), x = ch.range(-1, 1), y = ch.range(-1, 1), z = ch.range(-1, 1);
    if (!ch.go()) return;
    std::vector<int> m = {a, x, y, x, b, z, y, z, c};
    ch.note("grading %d", g);
    both(ch, which, graded(Plain(3, 3, V(m.begin(), m.end())), g, g), verdict(m, 3), 1, a);
}
FAMILY(scaled) {
    int which = ch.pick(2); size_t n = 1 + ch.pick(12); int kind = ch.pick(SPD), g = 1 + ch.pick(GRADES - 1), pat = ch.of({1, 4, 5, 6});
    if (!ch.go()) return;
    ch.note("grading %d", g);
    both(ch, which, graded(spd(kind, n, 1), g, g), ACCEPT, pat, 23 + g);
}
FAMILY(larger) {
    int which = ch.pick(2); size_t n = ch.of(larger_sizes()); int kind = ch.pick(SPD), g = ch.of({0, 3, 5});
    if (!ch.go()) return;
    ch.note("%zu x %zu, kind %d, grading %d", n, n, kind, g);
    both(ch, which, graded(spd(kind, n, 1), g, g), ACCEPT, 1, 23 + g);
}
FAMILY(many_right_hand_sides) {
    int which = ch.pick(2); size_t n = 1 + ch.pick(9), c = rhs_count(ch.pick(RHS_COUNTS)); int kind = ch.pick(SPD), pat = ch.of({0, 1, 5});
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1);
    ch.note("%zu x %zu, kind %d, %zu right-hand sides", n, n, kind, c);
    if (which == 0) accepted(ch, mk_dense(a), a, pat, 30 + kind, c); else accepted(ch, mk_packed(a), a, pat, 30 + kind, c);
}
// the dense matrix, then also the packed one, has more than 2^16 elements
FAMILY(bulk) {
    int which = ch.pick(2), kind = ch.of({0, 1, 4}); size_t n = ch.of({300, 400});
    if (!ch.go()) return;
    ch.note("%zu x %zu, kind %d", n, n, kind);
    both(ch, which, spd(kind, n, 1), ACCEPT, 1, 23);
}
// every zero pattern of a symmetric 5 x 5 matrix
FAMILY(every_pattern_5x5) {
    int which = ch.pick(2), mask = ch.pick(1024);
    if (!ch.go()) return;
    Plain a(5, 5); int q = 0;
    for (size_t i = 0; i < 5; ++i) { a(i, i) = T(6 + i); for (size_t j = 0; j < i; ++j, ++q) if (mask >> q & 1) a(i, j) = a(j, i) = mc::val<T>(1, q, mask % 3); }
    ch.note("off-diagonal entries %x", mask);
    both(ch, which, a, ACCEPT, 1, 20 + mask % 8);
}
