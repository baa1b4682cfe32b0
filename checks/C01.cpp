// C01: results do not depend on the team size or the schedule
#include "../mc/mats.hpp"
#include "../mc/sched.hpp"
#include "../mc/conc.hpp"
#include "lalib/ops/orthogonal.hpp"
#include <optional>
using namespace lalib;
using mc::Ch;

// exact data: every product and every partial sum is representable, so the expected result does not depend on any order
static V data(size_t n, int salt) { return mc::vals<T>(0, n, salt); }
struct Team { int max, deliver; };
static const std::vector<Team>& teams() {
    static const std::vector<Team> q = {{1, 99}, {2, 99}, {3, 99}, {4, 99}, {5, 99}, {6, 99}, {7, 99}, {8, 99}, {4, 1}, {4, 3}, {8, 5}, {3, 2}}, t = [] {
        std::vector<Team> r; for (int m = 1; m <= 16; ++m) { r.push_back({m, 99}); for (int d = 1; d < m && m <= 8; ++d) r.push_back({m, d}); } return r; }();
    return mc::thorough() ? t : q;
}
static sched::Config config(Ch& ch) { Team t = ch.of(teams()); sched::Config c; c.max_threads = t.max; c.deliver = t.deliver; int n = std::min(t.max, t.deliver); c.delays = n > 3; c.bound = n > 3 ? 2 : mc::thorough() ? 3 : 2; return c; }
static void want(Ch& ch, const sched::Config& c, const std::function<void(sched::Sink&)>& body, const sched::Sink& expected, double tol = 0) {
    conc::run(ch, c, body, [&](const sched::Outcome& o) { conc::same(ch, o, expected, tol, c.max_threads); });
}
template<class X> void put(sched::Sink& s, const X& x, size_t n) { for (size_t i = 0; i < n; ++i) conc::push(s, x[i]); }

static std::vector<int> lengths() { std::vector<int> r; for (int i = 0; i <= (mc::thorough() ? 70 : 40); ++i) r.push_back(i); for (int i: {47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1031}) r.push_back(i); return r; }
constexpr int VOPS = 16;
static void vectors_(Ch& ch, int op, size_t n, const sched::Config& c) {
    V a = data(n, 1), b = data(n, 2), g = data(n, 3); const T k = cplx(0.5, 2);
    ch.note("operation %d on vectors of length %zu, at most %d threads, %d delivered", op, n, c.max_threads, std::min(c.deliver, c.max_threads));
    sched::Sink e; auto vec = [&](auto f) { for (size_t i = 0; i < n; ++i) conc::push(e, (T)f(i)); };
    switch (op) {
        case 0: case 1: case 2: case 8: vec([&](size_t i) { return a[i] + b[i]; }); break;
        case 3: case 4: case 5: case 9: vec([&](size_t i) { return a[i] - b[i]; }); break;
        case 6: vec([&](size_t i) { return k * a[i] + b[i]; }); break;
        case 7: vec([&](size_t i) { return k * a[i]; }); break;
        case 10: vec([&](size_t i) { return k * a[i]; }); break;
        case 11: case 12: vec([&](size_t i) { return -a[i]; }); break;
        case 13: case 14: { T s = T(0); for (size_t i = 0; i < n; ++i) s += a[i] * b[i]; conc::push(e, s); break; }
        case 15: { W s = 0; for (size_t i = 0; i < n; ++i) { if constexpr (CX) s += std::norm(mc::wide(a[i])); else s += mc::wide(a[i]) * mc::wide(a[i]); } conc::push(e, mc::narrow<T>(std::sqrt(s))); break; }
    }
    want(ch, c, [&](sched::Sink& s) {
        DV x(a), y(b), r(g);
        switch (op) {
            case 0: add(x, y, r); put(s, r, n); break;
            case 1: add(x, y, x); put(s, x, n); break;
            case 2: { auto z = x + y; put(s, z, n); break; }
            case 3: sub(x, y, r); put(s, r, n); break;
            case 4: sub(x, y, y); put(s, y, n); break;
            case 5: { auto z = x - y; put(s, z, n); break; }
            case 6: axpy(k, x, y); put(s, y, n); break;
            case 7: scale(k, x); put(s, x, n); break;
            case 8: { for (int q = 0; q < 3; ++q) add(x, y, r); put(s, r, n); break; }
            case 9: { sub(x, y, r); sub(x, y, x); sub(r, r, y); add(x, y, r); put(s, r, n); break; }
            case 10: { auto z = k * x; put(s, z, n); break; }
            case 11: neg(x, r); put(s, r, n); break;
            case 12: neg(x, x); put(s, x, n); break;
            case 13: conc::push(s, dot(x, y)); break;
            case 14: { auto z = x + y; z = z - y; conc::push(s, dot(z, y)); break; }
            case 15: conc::push(s, x.norm2()); break;
        }
    }, e, op == 15 ? 8 * (double)mc::eps<T>() : 0);
}
FAMILY(vectors) {
    static const auto len = lengths();
    int op = ch.pick(VOPS); size_t n = ch.of(len); auto c = config(ch);
    if (!ch.go()) return;
    vectors_(ch, op, n, c);
}
// long vectors: work shared in chunks, or differently from some length on
FAMILY(long_vectors) {
    int op = ch.pick(VOPS); size_t n = ch.of({2048, 4099, 10007, CX ? 30011 : 60013}); sched::Config c; c.max_threads = ch.of({1, 2, 3, 8}); c.deliver = ch.of({99, 2}); c.delays = c.max_threads > 3; c.bound = 1;
    if (sizeof(R) == 4 && op >= 13 && n > 10007) n = 10007;      // sums that stay exact in any order
    if (!ch.go()) return;
    vectors_(ch, op, n, c);
}
FAMILY(fixed_size_vectors) {
    size_t n = ch.of(sized_sizes()); int op = ch.pick(4); auto c = config(ch);
    if (!ch.go()) return;
    V a = data(n, 1), b = data(n, 2); sched::Sink e;
    for (size_t i = 0; i < n; ++i) conc::push(e, op % 2 ? a[i] - b[i] : a[i] + b[i]);
    mc::dispatch<SIZED_LIST>(ch, n, [&]<size_t N>() {
        want(ch, c, [&](sched::Sink& s) {
            SV<N> x = mkvec<SV<N>>(a), y = mkvec<SV<N>>(b), r = x; DV d(b);
            switch (op) { case 0: r = x + y; break; case 1: sub(x, y, r); break; case 2: add(x, d, r); break; default: sub(x, d, x); r = x; }
            put(s, r, n);
        }, e);
    });
}
static const std::vector<int>& dims() { static const std::vector<int> a = {0, 1, 2, 3, 4, 5, 7, 9, 16, 17}, b = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 33}; return mc::thorough() ? b : a; }
static void matrices_(Ch& ch, int op, int n, int m, const sched::Config& c) {
    Plain a(n, m, data(n * m, 1)), b(n, m, data(n * m, 2)); V x = data(m, 3), y = data(n, 4); const T k = cplx(2, 0.5), l = cplx(-1, 1);
    const int q = 1 + (n + m) % 4; Plain w(m, q, data(m * q, 5)), z(n, q, data(n * q, 6));
    sched::Sink e;
    switch (op) {
        case 0: for (int i = 0; i < n * m; ++i) conc::push(e, a.e[i] + b.e[i]); break;
        case 1: for (int i = 0; i < n * m; ++i) conc::push(e, a.e[i] - b.e[i]); break;
        case 2: for (int i = 0; i < n * m; ++i) conc::push(e, k * a.e[i]); break;
        case 3: for (int i = 0; i < n; ++i) { T s = l * y[i]; for (int j = 0; j < m; ++j) s += k * a(i, j) * x[j]; conc::push(e, s); } break;
        case 4: for (int i = 0; i < n; ++i) for (int j = 0; j < q; ++j) { T s = l * z(i, j); for (int p = 0; p < m; ++p) s += k * a(i, p) * w(p, j); conc::push(e, s); } break;
        case 5: for (int i = 0; i < n; ++i) for (int j = 0; j < q; ++j) { T s = T(0); for (int p = 0; p < m; ++p) s += a(i, p) * w(p, j); conc::push(e, s); } break;
    }
    want(ch, c, [&](sched::Sink& s) {
        DM A = mkmat<DM>(a), B = mkmat<DM>(b), Wm = mkmat<DM>(w), Z = mkmat<DM>(z); DV X(x), Y(y);
        auto putm = [&](const DM& r) { for (size_t i = 0; i < r.shape().first; ++i) for (size_t j = 0; j < r.shape().second; ++j) conc::push(s, r(i, j)); };
        switch (op) {
            case 0: putm(A + B); break;
            case 1: sub(A, B, B); putm(B); break;
            case 2: scale(k, A); putm(A); break;
            case 3: mul(k, A, X, l, Y); put(s, Y, n); break;
            case 4: mul(k, A, Wm, l, Z); putm(Z); break;
            case 5: putm(A * Wm); break;
        }
    }, e);
}
FAMILY(matrices) {
    int op = ch.pick(6), n = ch.of(dims()), m = ch.of(dims()); auto c = config(ch);
    if (!ch.go()) return;
    matrices_(ch, op, n, m, c);
}
FAMILY(larger_matrices) {
    static const std::vector<std::pair<int, int>> sh = {{33, 40}, {64, 65}, {100, 3}, {1, 1000}, {1030, 1}, {130, 129}};
    int op = ch.pick(6); auto s = ch.of(sh); sched::Config c; c.max_threads = ch.of({1, 2, 3, 8}); c.deliver = ch.of({99, 2}); c.delays = c.max_threads > 3; c.bound = 1;
    if (!ch.go()) return;
    matrices_(ch, op, s.first, s.second, c);
}
