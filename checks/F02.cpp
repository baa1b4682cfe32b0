// F02: modified (root-free) Cholesky factorisation
#include "../mc/solve.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
using namespace lalib;
using namespace lalib::solver;
using Mod = DynModCholeskyFactorization<T>;
static Mod make(const Plain& a) { DM m(a.n, a.n, a.e); return Mod(std::move(m)); }

// A = L D^-1 L^T with L the lower part of the factor and D its diagonal
static void accepted(Ch& ch, const Mod& f, const Plain& a, int pat, int salt, size_t columns = 0) {
    const size_t n = a.n; LM A = wide_of(a), L(n * n, 0), U(n * n, 0);
    auto& m = f.factor_mat();
    if (m.shape() != std::make_pair(n, n)) ch.fail("factor has shape %zux%zu", m.shape().first, m.shape().second);
    Plain before(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) before(i, j) = m(i, j);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { L[i * n + j] = m(i, j); U[j * n + i] = (LD)m(i, j) / (LD)m(j, j); }
    LM P = prod(L, U, n), S = absprod(L, U, n); const LD k = 4 * n + 8;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (mc::me()) mc::me()->checks++;
        if (!(std::fabs(P[i * n + j] - A[i * n + j]) <= k * mc::eps<T>() * S[i * n + j])) ch.fail("(L D^-1 L^T)(%zu,%zu) is %Lg, the matrix has %Lg", i, j, P[i * n + j], A[i * n + j]);
    }
    if (columns) { solve_columns(ch, f, A, S, n, columns, 2 * k, pat, salt, salt % ZEROS); if (columns == 4) solve_columns_sized(ch, f, A, S, n, 2 * k, pat, salt); }
    else solves(ch, f, A, S, n, 2 * k, pat, salt);
    expect_mat(ch, "factor after the solves", f.factor_mat(), before);
}
enum { ACCEPT = 1, REJECT = 2 };
static void one(Ch& ch, const Plain& a, int allowed, int pat, int salt) {
    if (mc::verbose()) for (size_t i = 0; i < a.n; ++i) { std::string s; for (size_t j = 0; j < a.n; ++j) s += " " + mc::str((mc::Wide<T>)a(i, j)); ch.note("[%s ]", s.c_str()); }
    ch.op();
    try {
        Mod f = make(a);
        if (!(allowed & ACCEPT)) ch.fail("a matrix with a zero pivot was accepted");
        if (allowed == ACCEPT) accepted(ch, f, a, pat, salt);
    } catch (const std::runtime_error& e) {
        if (!(allowed & REJECT)) ch.fail("a matrix with non-zero leading minors was rejected: %s", e.what());
        ch.out(-1);
    }
}
static int verdict(const std::vector<int>& a, int n) {
    auto m = leading_minors(a, n); bool exact = true;
    for (int k = 0; k < n; ++k) {
        if (m[k] == 0) return exact ? REJECT : ACCEPT | REJECT;
        exact = exact && pow2((LD)m[k] / (k ? (LD)m[k - 1] : 1));
    }
    return ACCEPT;
}
FAMILY(integer_1x1) {
    int v = ch.range(-9, 9), pat = ch.of({0, 1, 2, 3});
    if (!ch.go()) return;
    one(ch, Plain(1, 1, V{(T)v}), verdict({v}, 1), pat, v + 10);
}
FAMILY(integer_2x2) {
    int a = ch.range(-6, 6), b = ch.range(-6, 6), c = ch.range(-5, 5);
    if (!ch.go()) return;
    std::vector<int> m = {a, c, c, b};
    one(ch, Plain(2, 2, V(m.begin(), m.end())), verdict(m, 2), 1, a + 6);
}
FAMILY(integer_3x3) {
    const int r = mc::thorough() ? 3 : 2;
    int a = ch.range(-r, r), b = ch.range(-r, r), c = ch.range(-r, r), x = ch.range(-2, 2), y = ch.range(-2, 2), z = ch.range(-2, 2);
    if (!ch.go()) return;
    std::vector<int> m = {a, x, y, x, b, z, y, z, c};
    one(ch, Plain(3, 3, V(m.begin(), m.end())), verdict(m, 3), (a + b) % 2 ? 1 : 0, 3);
}
FAMILY(integer_4x4) {
    int d = ch.pick(16), o = ch.pick(729);
    if (!ch.go()) return;
    std::vector<int> m(16, 0); static const int dd[] = {1, -2};
    for (int i = 0; i < 4; ++i) m[i * 5] = dd[d >> i & 1];
    int k = o; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { m[i * 4 + j] = m[j * 4 + i] = k % 3 - 1; k /= 3; }
    one(ch, Plain(4, 4, V(m.begin(), m.end())), verdict(m, 4), 1, 5);
}
static size_t top() { return mc::thorough() ? 40 : 20; }
FAMILY(positive_definite) {
    size_t n = 1 + ch.pick((int)top()); int kind = ch.pick(SPD), pat = ch.of({0, 1, 2}), neg = ch.pick(2);
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1); if (neg) for (auto& x: a.e) x = -x;
    one(ch, a, ACCEPT, pat, 30);
}
// A = L D L^T with every sign pattern of D; integers, so A is exact
FAMILY(every_inertia) {
    size_t n = 1 + ch.pick(mc::thorough() ? 8 : 6); int signs = ch.pick(1 << n), salt = ch.pick(2), zero = ch.pick((int)n + 1), pat = ch.of({0, 1});
    if (!ch.go()) return;
    std::vector<long> l(n * n, 0), d(n); Plain a(n, n);
    for (size_t i = 0; i < n; ++i) { d[i] = (long)(signs >> i & 1 ? -1 : 1) << ((i + salt) % 3); if ((int)i == zero) d[i] = 0; for (size_t j = 0; j <= i; ++j) l[i * n + j] = i == j ? 1 : (long)((i * 5 + j * 3 + salt) % 5) - 2; }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { long s = 0; for (size_t q = 0; q < n; ++q) s += l[i * n + q] * d[q] * l[j * n + q]; a(i, j) = (T)s; }
    ch.note("inertia pattern %x of size %zu%s", signs, n, zero < (int)n ? ", one zero pivot" : "");
    one(ch, a, zero < (int)n ? REJECT : ACCEPT, pat, 40);
}
// indefinite, diagonally dominant, any size
FAMILY(indefinite) {
    size_t n = 1 + ch.pick((int)top()); int kind = ch.pick(4), pat = ch.of({0, 1, 2});
    if (!ch.go()) return;
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        size_t lo = std::min(i, j), hi = std::max(i, j);
        LD s = kind == 0 ? (i % 2 ? -1 : 1) : kind == 1 ? -1 : kind == 2 ? (i == 0 ? -1 : 1) : (i + 1 == n ? -1 : 1);
        a(i, j) = (T)(i == j ? s * ((LD)n + 1) : mc::val<double>(1, lo * 64 + hi, kind));
    }
    one(ch, a, ACCEPT, pat, 50);
}

// D A D with a power-of-two diagonal D: exact, so the verdict and the bounds carry over
FAMILY(scaled_integer_2x2) {
    int g = 1 + ch.pick(GRADES - 1), a = ch.range(-4, 4), b = ch.range(-4, 4), c = ch.range(-3, 3);
    if (!ch.go()) return;
    std::vector<int> m = {a, c, c, b};
    ch.note("grading %d", g);
    one(ch, graded(Plain(2, 2, V(m.begin(), m.end())), g, g), verdict(m, 2), g % 2 ? 6 : 1, a + 6);
}
FAMILY(scaled_integer_3x3) {
    int g = 1 + ch.pick(GRADES - 1), a = ch.of({-2, 1}), b = ch.of({-2, 0, 1}), c = ch.of({-1, 2}), x = ch.range(-1, 1), y = ch.range(-1, 1), z = ch.range(-1, 1);
    if (!ch.go()) return;
    std::vector<int> m = {a, x, y, x, b, z, y, z, c};
    ch.note("grading %d", g);
    one(ch, graded(Plain(3, 3, V(m.begin(), m.end())), g, g), verdict(m, 3), 1, a + 4);
}
FAMILY(scaled) {
    size_t n = 1 + ch.pick(12); int kind = ch.pick(SPD), neg = ch.pick(2), g = 1 + ch.pick(GRADES - 1), pat = ch.of({1, 4, 5, 6});
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1); if (neg) for (auto& x: a.e) x = -x;
    ch.note("grading %d", g);
    one(ch, graded(a, g, g), ACCEPT, pat, 30 + g);
}
FAMILY(larger) {
    size_t n = ch.of(larger_sizes()); int kind = ch.pick(SPD + 2), g = ch.of({0, 3, 5});
    if (!ch.go()) return;
    Plain a = spd(kind % SPD, n, 1); if (kind >= SPD) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = i == j ? T(i % (kind - SPD + 2) ? -1 : 1) * T(n + 1) : mc::val<T>(1, std::min(i, j) * 300 + std::max(i, j), 3);
    ch.note("%zu x %zu, kind %d, grading %d", n, n, kind, g);
    one(ch, graded(a, g, g), ACCEPT, 1, 30 + g);
}
FAMILY(many_right_hand_sides) {
    size_t n = 1 + ch.pick(9), c = rhs_count(ch.pick(RHS_COUNTS)); int kind = ch.pick(SPD), neg = ch.pick(2), pat = ch.of({0, 1, 5});
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1); if (neg) for (auto& x: a.e) x = -x;
    ch.note("%zu x %zu, kind %d, %zu right-hand sides", n, n, kind, c);
    accepted(ch, make(a), a, pat, 30 + kind, c);
}
FAMILY(bulk) {
    int kind = ch.of({0, 1, 4}), neg = ch.pick(2); size_t n = ch.of({300, 400});
    if (!ch.go()) return;
    Plain a = spd(kind, n, 1); if (neg) for (auto& x: a.e) x = -x;
    ch.note("%zu x %zu, kind %d", n, n, kind);
    one(ch, a, ACCEPT, 1, 30);
}
// every zero pattern of a symmetric 5 x 5 matrix
FAMILY(every_pattern_5x5) {
    int mask = ch.pick(1024), signs = ch.of({0, 31, 10, 21, 1, 16});
    if (!ch.go()) return;
    Plain a(5, 5); int q = 0;
    for (size_t i = 0; i < 5; ++i) { a(i, i) = T(signs >> i & 1 ? -1 : 1) * T(6 + i); for (size_t j = 0; j < i; ++j, ++q) if (mask >> q & 1) a(i, j) = a(j, i) = mc::val<T>(1, q, mask % 3); }
    ch.note("off-diagonal entries %x, signs %x", mask, signs);
    one(ch, a, ACCEPT, 1, 20 + mask % 8);
}
