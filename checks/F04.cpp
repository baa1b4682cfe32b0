// F04: incomplete LU factorisation without fill-in
#include "../mc/solve.hpp"
#include "../mc/sparse.hpp"
#include "lalib/solver/ilu.hpp"
#include <stdexcept>
using namespace lalib;
using namespace lalib::solver;

// storage: 0 dense, 1 compressed rows (ascending columns), 2 compressed rows (descending columns), 3 from coordinates
constexpr int STORES = 4;
static CSR csr(const Plain& p, int st) {
    if (st == 3) { Mod m; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) if (p(i, j) != T(0)) m[{i, j}] = p(i, j); return CSR(coo(m, 2)); }
    V v; Ids ptr{0}, c;
    for (size_t i = 0; i < p.n; ++i) { for (size_t q = 0; q < p.m; ++q) { size_t j = st == 2 ? p.m - 1 - q : q; if (p(i, j) != T(0)) { v.push_back(p(i, j)); c.push_back(j); } } ptr.push_back(v.size()); }
    return CSR(v, ptr, c);
}
template<class M> void accepted(Ch& ch, const Ilu<T, M>& f, const Plain& a, int pat) {
    const size_t n = a.n; LM A = wide_of(a), L(n * n, 0), U(n * n, 0); const LD k = 4 * n + 8;
    auto& m = f.mat();
    if (m.shape() != std::make_pair(n, n)) ch.fail("the factors have shape %zux%zu", m.shape().first, m.shape().second);
    std::vector<LD> raw(n * n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD x = raw[i * n + j] = m(i, j);
        if (a(i, j) == T(0) && x != 0) ch.fail("entry (%zu,%zu) of the factors is %Lg, the matrix has none", i, j, x);
        (j < i ? L : U)[i * n + j] = x; if (i == j) L[i * n + j] = 1;
        ch.out((double)x);
    }
    LM P = prod(L, U, n), S = absprod(L, U, n); bool fill = false; LD ls = 0; for (LD x: L) ls = std::max(ls, std::fabs(x));  // an unknown of the forward substitution that underflows is multiplied by entries of L
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (mc::me()) mc::me()->checks++;
        LD tol = k * mc::eps<T>() * S[i * n + j];
        if (a(i, j) != T(0)) { if (!(std::fabs(P[i * n + j] - A[i * n + j]) <= tol)) ch.fail("(L U)(%zu,%zu) is %Lg, the matrix has %Lg", i, j, P[i * n + j], A[i * n + j]); }
        else if (S[i * n + j] != 0) fill = true;
    }
    for (int r = 0; r < 5; ++r) {
        V b = r >= 3 ? planted(A, n, ((int)n + pat + r * 2) % 5) : r == 2 ? V(n, T(0)) : zeroed(pmat(pat, n, 1, 9 + r), r ? 2 + (int)n % 5 : 0).e; DV v(b);
        ch.op();
        auto x = f.solve(v);
        if (x.size() != n) ch.fail("the solution has length %zu", (size_t)x.size());
        residual(ch, "solve (of the factors)", P, S, n, 1, [&](size_t i, size_t) { return x[i]; }, [&](size_t i, size_t) { return b[i]; }, 2 * k, ls);
        if (!fill) residual(ch, "solve (no fill-in dropped)", A, S, n, 1, [&](size_t i, size_t) { return x[i]; }, [&](size_t i, size_t) { return b[i]; }, 4 * k, ls);
        expect_unchanged(ch, "right-hand side", v, b);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((LD)m(i, j) != raw[i * n + j]) ch.fail("solving changed the factors");
}
enum { ACCEPT = 1, REJECT = 2 };
static void one(Ch& ch, const Plain& a, int st, int allowed, int pat) {
    if (mc::verbose()) for (size_t i = 0; i < a.n; ++i) { std::string s; for (size_t j = 0; j < a.n; ++j) s += " " + mc::str((mc::Wide<T>)a(i, j)); ch.note("[%s ] %s", s.c_str(), i ? "" : st ? "compressed rows" : "dense"); }
    ch.op();
    auto go = [&](auto m) {
        using M = decltype(m);
        try {
            Ilu<T, M> f(std::move(m));
            if (!(allowed & ACCEPT)) ch.fail("a matrix with a zero or missing pivot was accepted");
            if (allowed == ACCEPT) accepted(ch, f, a, pat);
        } catch (const std::runtime_error& e) {
            if (!(allowed & REJECT)) ch.fail("a matrix with non-zero pivots was rejected: %s", e.what());
            ch.out(-1);
        }
    };
    if (st == 0) go(mkmat<DM>(a)); else go(csr(a, st));
}
// ---- exact rational elimination on the pattern: are the pivots non-zero?
struct Q { __int128 n, d; };
static __int128 gcd(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { auto t = a % b; a = b; b = t; } return a ? a : 1; }
static Q norm(Q q) { auto g = gcd(q.n, q.d); q.n /= g; q.d /= g; if (q.d < 0) { q.n = -q.n; q.d = -q.d; } return q; }
static int verdict(const std::vector<int>& a, int n) {
    std::vector<Q> m(n * n); for (int i = 0; i < n * n; ++i) m[i] = {a[i], 1};
    bool exact = true;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
            if (a[i * n + j] == 0) continue;
            Q s = m[i * n + j];
            for (int k = 0; k < std::min(i, j); ++k) { Q x = m[i * n + k], y = m[k * n + j]; if (x.n == 0 || y.n == 0) continue; s = norm({s.n * x.d * y.d - x.n * y.n * s.d, s.d * x.d * y.d}); }
            if (j < i) { Q p = m[j * n + j]; s = norm({s.n * p.d, s.d * p.n}); }
            m[i * n + j] = s;
        }
        if (m[i * n + i].n == 0) return exact ? REJECT : ACCEPT | REJECT;
        exact = exact && pow2((LD)m[i * n + i].n / (LD)m[i * n + i].d);
    }
    return ACCEPT;
}
static void integers(Ch& ch, const std::vector<int>& a, int n, int st, int pat, int rg = 0, int cg = 0) {
    // the shape of a sparse matrix follows from its entries: without any entry in the last row or column there is no such row or column
    bool lastrow = false, lastcol = false; for (int i = 0; i < n; ++i) { lastrow |= a[(n - 1) * n + i] != 0; lastcol |= a[i * n + n - 1] != 0; }
    if (st == 3 && !lastrow) return;
    if (st && !lastcol) { V v(a.begin(), a.end()); one(ch, Plain(n, n, v), st, lastrow || st != 3 ? REJECT : ACCEPT | REJECT, pat); return; }
    one(ch, graded(Plain(n, n, V(a.begin(), a.end())), rg, cg), st, verdict(a, n), pat);
}
FAMILY(every_1x1) { int st = ch.pick(STORES), v = ch.range(-5, 5); if (!ch.go()) return; integers(ch, {v}, 1, st, 1); }
FAMILY(every_2x2) {
    int st = ch.pick(STORES); std::vector<int> a; for (int i = 0; i < 4; ++i) a.push_back(ch.range(-3, 3));
    if (!ch.go()) return;
    integers(ch, a, 2, st, 1);
}
FAMILY(every_3x3) {
    int st = ch.pick(STORES); std::vector<int> a; for (int i = 0; i < 9; ++i) a.push_back(ch.of({0, 1, -2}));
    if (!ch.go()) return;
    integers(ch, a, 3, st, a[0] ? 1 : 0);
}
FAMILY_T(every_3x3_more) {
    int st = ch.pick(2); std::vector<int> a; for (int i = 0; i < 9; ++i) a.push_back(ch.range(-1, 2));
    if (!ch.go()) return;
    integers(ch, a, 3, st, 1);
}
// every off-diagonal pattern of a 4x4 matrix
FAMILY(every_pattern_4x4) {
    int st = ch.pick(STORES), mask = ch.pick(4096), kind = ch.pick(2);
    if (!ch.go()) return;
    Plain a(4, 4); int q = 0;
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) if (i == j) a(i, j) = kind ? T(i % 2 ? -4 : 4) : T(5 + i); else { if (mask >> q & 1) a(i, j) = mc::val<T>(kind ? 1 : 3, q * 3 + 1, 2); ++q; }
    for (auto& x: a.e) if (std::fabs((LD)x) > 3.9L && std::fabs((LD)x) < 3.95L) x = T(1);
    one(ch, a, st, ACCEPT, kind);
}
// a missing pivot anywhere, and a pivot that becomes exactly zero anywhere
FAMILY(pivot_failure_anywhere) {
    int st = ch.pick(STORES); int n = 1 + ch.pick(7), k = ch.pick(n), kind = ch.pick(3);
    if (!ch.go()) return;
    std::vector<long> l(n * n, 0), u(n * n, 0); std::vector<int> a(n * n, 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long v = (i * 5 + j * 3 + kind) % 3 + 1; if (j < i) l[i * n + j] = v; else u[i * n + j] = i == j ? 1 << (i % 2) : v; if (i == j) l[i * n + j] = 1; }
    if (kind < 2) u[k * n + k] = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long s = 0; for (int q = 0; q < n; ++q) s += l[i * n + q] * u[q * n + j]; a[i * n + j] = (int)s; }
    if (kind == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && std::abs(i - j) != 1) a[i * n + j] = 0; a[k * n + k] = 0; for (int j = 0; j < n; ++j) if (j != k && j < k) a[k * n + j] = 0; }
    ch.note("pivot %d of %d", k, n);
    integers(ch, a, n, st, 1);
}
FAMILY(any_size) {
    int st = ch.pick(STORES), kind = ch.pick(6), pat = ch.of({0, 1, 2}); size_t n = 1 + ch.pick(mc::thorough() ? 40 : 20);
    if (!ch.go()) return;
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD v = 0; size_t d = i > j ? i - j : j - i;
        if (i == j) v = (i % 2 ? -1 : 1) * (LD)(n + 2);
        else switch (kind) {
            case 0: v = mc::val<double>(1, i * 64 + j, 3); break;                           // full
            case 1: if (d == 1) v = mc::val<double>(1, i * 64 + j, 3); break;               // tridiagonal
            case 2: if (d == 1 || d == 4) v = -1; break;                                    // five-point stencil
            case 3: if (i == 0 || j == 0) v = 1; break;                                     // arrow, maximal fill-in
            case 4: if (i + 1 == n || j + 1 == n) v = 1; break;                             // arrow, no fill-in
            case 5: if ((i * 7 + j * 3) % 5 == 0) v = mc::val<double>(1, i * 64 + j, 5); break;
        }
        a(i, j) = (T)v;
    }
    one(ch, a, st, ACCEPT, pat);
}

// rows and columns multiplied by powers of two: exact, so the verdict and the bounds carry over
FAMILY(scaled_2x2) {
    int st = ch.pick(STORES), rg = ch.pick(GRADES), cg = ch.pick(GRADES); std::vector<int> a; for (int i = 0; i < 4; ++i) a.push_back(ch.of({-2, 0, 1, 3}));
    if (!ch.go()) return;
    ch.note("gradings %d %d", rg, cg);
    integers(ch, a, 2, st, rg % 2 ? 6 : 1, rg, cg);
}
FAMILY(scaled_3x3) {
    int st = ch.pick(2), g = ch.pick(GRADES); std::vector<int> a; for (int i = 0; i < 9; ++i) a.push_back(i % 4 ? ch.of({0, 1}) : ch.of({0, 1, -2}));
    if (!ch.go()) return;
    ch.note("gradings %d %d", g, (g * 3 + 1) % GRADES);
    integers(ch, a, 3, st, 1, g, (g * 3 + 1) % GRADES);
}
static Plain sample(int kind, size_t n) {
    Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        LD v = 0; size_t d = i > j ? i - j : j - i;
        if (i == j) v = (i % 2 ? -1 : 1) * (LD)(n + 2);
        else switch (kind) {
            case 0: v = mc::val<double>(1, i * 512 + j, 3); break;
            case 1: if (d == 1) v = mc::val<double>(1, i * 64 + j, 3); break;
            case 2: if (d == 1 || d == 4) v = -1; break;
            case 3: if ((i * 7 + j * 3) % 5 == 0) v = mc::val<double>(1, i * 64 + j, 5); break;
        }
        a(i, j) = (T)v;
    }
    return a;
}
FAMILY(scaled) {
    int st = ch.pick(STORES), kind = ch.pick(4), rg = ch.pick(GRADES), cg = ch.pick(GRADES), pat = ch.of({1, 6}); size_t n = 1 + ch.pick(9);
    if (!ch.go()) return;
    ch.note("gradings %d %d", rg, cg);
    one(ch, graded(sample(kind, n), rg, cg), st, ACCEPT, pat);
}
FAMILY(larger) {
    int st = ch.pick(STORES), kind = ch.pick(4), g = ch.of({0, 3, 5}); size_t n = ch.of(larger_sizes());
    if (!ch.go()) return;
    if (st && kind == 0 && n > 66) return;               // element access in compressed rows is linear: cubic times linear
    ch.note("%zu x %zu kind %d, grading %d", n, n, kind, g);
    one(ch, graded(sample(kind, n), g, 0), st, ACCEPT, 1);
}
FAMILY(bulk) {
    int st = ch.pick(STORES), kind = 1 + ch.pick(2); size_t n = ch.of({257, 300, 400});
    if (!ch.go()) return;
    ch.note("%zu x %zu kind %d", n, n, kind);
    one(ch, sample(kind, n), st, ACCEPT, 1);
}
