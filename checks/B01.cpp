// B01: the same program on the built-in, the BLAS and the LAPACK configuration, side by side
#ifdef ELEM_REAL
#include "../mc/solve.hpp"
#endif
#include "../mc/sparse.hpp"
#include "B01_prog.hpp"
#include <dlfcn.h>

using Run = int (*)(const int*, int, double*, double*, int);
static const char* NAMES[] = {"int", "blas", "lapack"};
static Run lib(int k) {
    static Run r[3];
    if (!r[k]) {
        char p[4000]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 40); p[n] = 0;
        std::string s = std::string(p) + "." + NAMES[k] + ".so";
        void* h = dlopen(s.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(98); }
        r[k] = (Run)dlsym(h, "run");
    }
    return r[k];
}
constexpr int CAP = 1 << 20;
static double* buf(int k) { static std::vector<double> b[6]; if (b[k].empty()) b[k].resize(CAP); return b[k].data(); }
static void compare(Ch& ch, const std::vector<int>& p) {
    int n[3];
    if (mc::verbose()) { std::string s; for (int x: p) s += " " + std::to_string(x); ch.note("program%s", s.c_str()); }
    for (int k = 0; k < 3; ++k) { ch.op(p[0] < 2 ? p.size() - 3 : 1); n[k] = lib(k)(p.data(), (int)p.size(), buf(k), buf(k + 3), CAP); if (n[k] > CAP) _exit(97); }
    for (int k = 1; k < 3; ++k) {
        if (n[k] != n[0]) ch.fail("%d observations with the built-in backend, %d with %s", n[0], n[k], NAMES[k]);
        for (int i = 0; i < n[0]; ++i) {
            double a = buf(0)[i], b = buf(k)[i], t = std::max(buf(3)[i], buf(k + 3)[i]);
            if (mc::me()) mc::me()->checks++;
            if (!(a == b || (a != a && b != b) || std::fabs(a - b) <= 2 * t)) ch.fail("observation %d is %.17g with the built-in backend and %.17g with %s (allowed difference %g)", i, a, b, NAMES[k], 2 * t);
        }
    }
    for (int i = 0; i < n[0] && i < 64; ++i) ch.out((double)(float)buf(0)[i]);
}
static int pattern_of(Ch& ch) { return ch.pick(2); }
// every sequence of operations
static void sequences(Ch& ch, int kind, std::vector<int> sizes, int depth) {
    std::vector<int> p = {kind, ch.of(sizes), pattern_of(ch)};
    int d = 1 + ch.pick(depth); for (int k = 0; k < d; ++k) p.push_back(ch.pick((int)ops().size()));
    if (!ch.go()) return;
    compare(ch, p);
}
FAMILY(programs_of_two) { sequences(ch, 0, {1, 2, 5}, 2); }
FAMILY(programs_of_three) { std::vector<int> p = {0, 3, ch.pick(2)}; for (int k = 0; k < 3; ++k) p.push_back(ch.pick((int)ops().size())); if (!ch.go()) return; compare(ch, p); }
FAMILY(fixed_size_programs) { sequences(ch, 1, {2, 3, 17}, 2); }
FAMILY(parallel_size_programs) { sequences(ch, 0, {16, 19}, 2); }
FAMILY_T(longer_programs) { std::vector<int> p = {0, 2, ch.pick(2)}; for (int k = 0; k < 4; ++k) p.push_back(ch.pick((int)ops().size() / 2) * 2 + (k & 1)); if (!ch.go()) return; compare(ch, p); }
FAMILY(vectors) {
    int n = (int)ch.of(dyn_sizes()), op = ch.pick(12), pat = n > 300 ? ch.pick(2) : ch.pick(3), k = op == 2 || op == 3 || op == 11 ? (n > 300 ? ch.of({1, 4, 6, 8}) : ch.pick(mc::NSCALAR)) : 0, al = op == 0 || op == 1 || op == 2 || op == 4 || op == 7 || op == 8 ? ch.pick(2) : 0;
    if (!ch.go()) return;
    compare(ch, {2, n, n, pat, op, k, al});
}
FAMILY(vectors_of_different_length) {
    int n = ch.of({0, 1, 2, 3, 4, 15, 16, 17, 33}), m = ch.of({0, 1, 2, 3, 4, 15, 16, 17, 33}), op = ch.of({0, 1, 2, 4, 7, 8, 9, 10});
    if (!ch.go()) return;
    compare(ch, {2, n, m, 1, op, 3, 0});
}
static const std::vector<int> DIMS = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33};
FAMILY(matrix_times_vector) {
    int n = ch.of(DIMS), m = ch.of(DIMS), pat = ch.pick(3), a = ch.pick(mc::NSCALAR), b = ch.pick(mc::NSCALAR), al = ch.pick(2);
    if (!ch.go()) return;
    compare(ch, {3, n, m, pat, a, b, al});
}
FAMILY(matrix_times_matrix) {
    static const int sc[][2] = {{0, 2}, {0, 0}, {3, 4}, {2, 5}, {6, 7}, {4, 1}, {1, 0}, {1, 2}, {8, 1}, {0, 8}};
    int n = ch.of(DIMS), l = ch.of(DIMS), m = ch.of(DIMS), pat = ch.pick(2), s = ch.pick(10), al = ch.pick(3);
    if (!ch.go()) return;
    compare(ch, {4, n, l, m, pat, sc[s][0], sc[s][1], al});
}
FAMILY(large_matrix_times_vector) {
    static const std::vector<std::pair<int, int>> sh = {{64, 64}, {65, 130}, {130, 65}, {257, 300}, {1, 1000}, {1000, 1}, {1025, 3}, {3, 1025}, {512, 512}, {70000, 1}, {1, 70000}};
    static const int sc[][2] = {{0, 2}, {0, 0}, {3, 4}, {6, 7}, {2, 5}};
    auto s = ch.of(sh); int pat = ch.pick(2), k = ch.pick(5), al = ch.pick(2);
    if (!ch.go()) return;
    compare(ch, {3, s.first, s.second, pat, sc[k][0], sc[k][1], al});
}
FAMILY(large_matrix_times_matrix) {
    static const int sh[][3] = {{64, 64, 64}, {65, 66, 67}, {130, 3, 128}, {3, 130, 5}, {100, 1, 100}, {1, 300, 1}, {256, 2, 257}, {1, 2, 300}, {129, 129, 129}};
    static const int sc[][2] = {{0, 2}, {0, 0}, {3, 4}, {6, 7}, {2, 5}};
    int k = ch.pick(9), pat = ch.pick(2), s = ch.pick(5), al = ch.pick(3);
    if (!ch.go()) return;
    compare(ch, {4, sh[k][0], sh[k][1], sh[k][2], pat, sc[s][0], sc[s][1], al});
}
FAMILY(sparse) {
    int kind = ch.pick(PATTERNS), n = 1 + ch.pick(24), pat = ch.pick(2), op = ch.pick(3), a = ch.pick(mc::NSCALAR), b = op ? 0 : ch.pick(mc::NSCALAR);
    if (!ch.go()) return;
    compare(ch, {5, kind, n, pat, op, a, b});
}
#ifdef ELEM_REAL
FAMILY(cholesky) {
    int which = ch.pick(3), kind = ch.pick(SPD), n = 1 + ch.pick(16), bad = ch.pick(n + 1);
    if (!ch.go()) return;
    if (which == 2) bad = n;
    compare(ch, {6, 0, which, kind, n, bad});
}
static bool borderline(const std::vector<int>& a, int n, bool modified) {
    auto m = leading_minors(a, n); bool exact = true;
    for (int k = 0; k < n; ++k) {
        if (m[k] == 0) return !exact;
        if (m[k] < 0 && !modified) return false;
        LD q = (LD)m[k] / (k ? (LD)m[k - 1] : 1); exact = exact && (modified ? pow2(q) : pow4(q));
    }
    return false;
}
FAMILY(cholesky_outcome) {
    int which = ch.pick(3), n = 1 + ch.pick(3); std::vector<int> p = {6, 1, which, n}, e(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int v = i == j ? ch.of({-1, 0, 1, 2, 4, 5, 9}) : ch.range(-2, 2); e[i * n + j] = e[j * n + i] = v; p.push_back(v); }
    if (!ch.go()) return;
    if (borderline(e, n, which == 2)) return;
    compare(ch, p);
}
FAMILY(larger_cholesky) {
    int which = ch.pick(3), kind = ch.pick(SPD), n = ch.of({31, 32, 33, 48, 64, 65, 66, 100, 129, 130}), bad = ch.of({-1, 0, n / 2, n - 1});
    if (!ch.go()) return;
    if (which == 2 || bad < 0) bad = n;
    compare(ch, {6, 0, which, kind, n, bad});
}
FAMILY(tridiagonal) {
    int kind = ch.pick(3), n = ch.pick(2) ? 1 + ch.pick(40) : ch.of({63, 64, 65, 128, 257, 1000, 4097, 70000}), al = ch.pick(2);
    if (!ch.go()) return;
    compare(ch, {6, 2, kind, n, al});
}
FAMILY(iterative) {
    int what = 3 + ch.pick(2), kind = ch.of({0, 1, 4, 7}), n = 1 + ch.pick(24);
    if (!ch.go()) return;
    compare(ch, {6, what, kind, n});
}
#endif
