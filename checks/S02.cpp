// S02: sparse accumulation, sum, difference, negation and scaling equal the dense result
#include "../mc/sparse.hpp"
#include <memory>
using namespace lalib;

// dense model: exact-as-possible value and the magnitude that bounds the rounding error
struct D { std::map<std::pair<size_t, size_t>, std::pair<W, long double>> e; };
static D model(const Mod& m) { D d; for (auto& x: m) d.e[x.first] = {mc::wide(x.second), mag(x.second)}; return d; }
static D add(const D& a, const D& b, int sign = 1) {
    D r = a; for (auto& x: b.e) { auto& y = r.e[x.first]; y.first += (long double)sign * x.second.first; y.second += x.second.second; } return r;
}
static D mul(const T& k, const D& a) { D r = a; for (auto& x: r.e) { x.second.first *= mc::wide(k); x.second.second *= mag(k); } return r; }

static void compare(Ch& ch, const char* what, const COO& a, const D& d) {
    std::map<std::pair<size_t, size_t>, int> seen;
    auto& r = a.row_indices(); auto& c = a.col_indices();
    if (r.size() != a.nnz() || c.size() != a.nnz() || a.values().size() != a.nnz()) ch.fail("%s: the entry arrays do not have nnz elements", what);
    for (size_t k = 0; k < r.size(); ++k) if (seen[{r[k], c[k]}]++) ch.fail("%s: position (%zu,%zu) is stored twice", what, r[k], c[k]);
    std::pair<size_t, size_t> s{0, 0}; for (auto& x: d.e) { s.first = std::max(s.first, x.first.first + 1); s.second = std::max(s.second, x.first.second + 1); }
    auto look = [&](size_t i, size_t j) {
        auto it = d.e.find({i, j}); W w(0); long double m = 0; if (it != d.e.end()) { w = it->second.first; m = it->second.second; }
        mc::expect<T>(ch, what, i * 1000 + j, a(i, j), w, m, 8);
    };
    positions(s, look);
    for (auto& x: seen) look(x.first.first, x.first.second);
}
static void unchanged(Ch& ch, const char* what, const COO& a, const Mod& p) {
    if (a.nnz() != p.size()) ch.fail("%s: operand has %zu entries, had %zu", what, (size_t)a.nnz(), p.size());
    is_model(ch, what, a, p);
}
// every pair of patterns of a 3x3 grid
FAMILY(every_pair) {
    int x = ch.pick(512), y = ch.pick(512);
    if (!ch.go()) return;
    int pat = (x + y) % 2 ? 1 : 0;
    Mod p = subset(x, 3, 3, pat, 0), q = subset(y, 3, 3, pat, 1);
    COO a = coo(p), b = coo(q);
    ch.op();
    COO* r = &(a += b);
    if (r != &a) ch.fail("+= does not return its destination");
    compare(ch, "a += b", a, add(model(p), model(q)));
    unchanged(ch, "right operand of +=", b, q);
}
// sums, differences, accumulation of shapes of different extents, unsorted insertion
FAMILY(every_operation) {
    int g = ch.pick(2), m1 = ch.pick(64), m2 = ch.pick(64), o = ch.pick(CX ? 4 : 6);
    if (!ch.go()) return;
    Mod p = g ? subset(m1, 2, 3, 1, 3, 3, 1) : subset(m1, 3, 2, 1, 3), q = g ? subset(m2, 3, 2, 1, 4) : subset(m2, 2, 3, 1, 4, 1, 2);
    ch.note("operation %d on subsets %x and %x of grids of different extents", o, m1, m2);
    COO a = coo(p, m1 % ORDERS), b = coo(q, m2 % ORDERS, true);
    ch.op();
    if (o == 0) { compare(ch, "a + b", a + b, add(model(p), model(q))); }
    else if (o == 1) { T k = mc::scalar<T>(m1 % mc::NSCALAR); COO* r = &scale(k, a); if (r != &a) ch.fail("scale does not return its argument"); compare(ch, "scale", a, mul(k, model(p))); unchanged(ch, "other", b, q); return; }
    else if (o == 2) { T k = mc::scalar<T>(m2 % mc::NSCALAR); compare(ch, "k * b", k * b, mul(k, model(q))); }
    else if (o == 3) { COO& r = (a += a); if (&r != &a) ch.fail("+= does not return its destination"); compare(ch, "a += a", a, add(model(p), model(p))); unchanged(ch, "other", b, q); return; }
    if constexpr (!CX) {
        if (o == 4) compare(ch, "a - b", minus(a, b), add(model(p), model(q), -1));
        if (o == 5) compare(ch, "-a", minus(a), mul(T(-1), model(p)));
    }
    unchanged(ch, "left operand", a, p); unchanged(ch, "right operand", b, q);
}
// histories of operations over two matrices
#define NOP 9
static void step(Ch& ch, int o, std::unique_ptr<COO>& a, std::unique_ptr<COO>& b, D& p, D& q) {
    auto put = [&](COO&& r) { *a = std::move(r); };
    ch.op();
    switch (o) {
        case 0: *a += *b; p = add(p, q); break;
        case 1: *b += *a; q = add(q, p); break;
        case 2: *a += *a; p = add(p, p); break;
        case 3: put(*a + *b); p = add(p, q); break;
        case 4: { COO c = *b; scale(T(mc::scalar<T>(3)), c); put(c + *a); p = add(mul(mc::scalar<T>(3), q), p); break; }
        case 5: scale(mc::scalar<T>(4), *a); p = mul(mc::scalar<T>(4), p); break;
        case 6: *b = *a; q = p; break;
        case 7: if constexpr (!CX) { put(minus(*a, *b)); p = add(p, q, -1); } else { put(mc::scalar<T>(1) * *a); p = mul(mc::scalar<T>(1), p); } break;
        case 8: if constexpr (!CX) { *b = minus(*a); q = mul(T(-1), p); } else { *b = mc::scalar<T>(5) * *a; q = mul(mc::scalar<T>(5), p); } break;
    }
}
FAMILY(histories) {
    static const int menu[] = {0x000, 0x001, 0x100, 0x054, 0x111, 0x1c0, 0x007, 0x0aa, 0x1ff, 0x020};
    const int L = mc::thorough() ? 4 : 3, M = mc::thorough() ? 10 : 7;
    int x = menu[ch.pick(M)], y = menu[ch.pick(M)], ops[4], len = 0;
    for (int i = 0; i < L; ++i) ops[len++] = ch.pick(NOP);
    if (!ch.go()) return;
    Mod p0 = subset(x, 3, 3, 1, 5), q0 = subset(y, 3, 3, 1, 6, 1, 2);
    std::unique_ptr<COO> a(new COO(coo(p0, 1))), b(new COO(coo(q0, 3)));
    D p = model(p0), q = model(q0);
    for (int i = 0; i < len; ++i) {
        ch.note("step %d: operation %d", i, ops[i]);
        step(ch, ops[i], a, b, p, q);
        compare(ch, "first matrix of the history", *a, p);
        compare(ch, "second matrix of the history", *b, q);
    }
    // the accumulated matrix is good for conversion: compressed rows read the same
    CSR c(*a);
    for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 6; ++j) if (!(c(i, j) == (*a)(i, j))) ch.fail("after the history, the compressed form differs at (%zu,%zu)", i, j);
}
FAMILY(large) {
    int k1 = ch.pick(PATTERNS), k2 = ch.pick(PATTERNS), n1 = ch.of({1, 4, 9, 26}), n2 = ch.of({1, 4, 9, 26}), o = ch.pick(2);
    if (!ch.go()) return;
    Mod p = pattern(k1, n1, 1, 7), q = pattern(k2, n2, 1, 8);
    COO a = coo(p, 2), b = coo(q, 4);
    ch.op();
    if (o) { compare(ch, "a + b", a + b, add(model(p), model(q))); unchanged(ch, "a", a, p); }
    else { a += b; compare(ch, "a += b", a, add(model(p), model(q))); }
    unchanged(ch, "b", b, q);
}

// columns (and few rows) that differ only in high bits
FAMILY(wide_indices) {
    int sh = ch.of({15, 16, 31, 32, 33, 48, 62}), m1 = ch.pick(64), m2 = ch.of({0, 1, 2, 4, 8, 16, 32, 0x15, 0x2a, 0x33, 0x3f}), o = ch.pick(3);
    if (!ch.go()) return;
    const size_t w = (size_t)1 << sh, at6[6][2] = {{1, 2}, {1, 2 + w}, {0, 2 * w}, {2, w - 1}, {2, w}, {0, 2}};
    Mod p, q; for (int k = 0; k < 6; ++k) { if (m1 >> k & 1) p[{at6[k][0], at6[k][1]}] = mc::val<T>(1, k, 4); if (m2 >> k & 1) q[{at6[k][0], at6[k][1]}] = mc::val<T>(1, k, 5); }
    COO a = coo(p, m1 % ORDERS), b = coo(q, m2 % ORDERS); D d = add(model(p), model(q));
    ch.op();
    if (o == 0) a += b; else if (o == 1) a = a + b; else { COO c = a; a += b; a += c; d = add(d, model(p)); }
    std::map<std::pair<size_t, size_t>, int> seen;
    for (size_t k = 0; k < a.nnz(); ++k) if (seen[{a.row_indices()[k], a.col_indices()[k]}]++) ch.fail("a position is stored twice");
    for (size_t i = 0; i < 4; ++i) for (size_t j: {(size_t)0, (size_t)1, (size_t)2, w - 1, w, w + 1, w + 2, 2 * w, 2 * w + 2}) {
        auto it = d.e.find({i, j}); W x(0); long double m = 0; if (it != d.e.end()) { x = it->second.first; m = it->second.second; }
        mc::expect<T>(ch, "sum", i * 1000 + j % 991, a(i, j), x, m, 8);
    }
    if (b.nnz() != q.size()) ch.fail("operand changed"); for (auto& e: q) if (!(b(e.first.first, e.first.second) == e.second)) ch.fail("operand changed");
}
// more entries than fit in sixteen bits
FAMILY(bulk_sums) {
    if (!mc::thorough() && !std::is_same_v<T, double>) return;      // the widths do not depend on the element type
    int kind = ch.pick(BULKS - 2), kind2 = ch.pick(3), o = ch.pick(6); size_t nnz = ch.of(bulk_sizes());
    if (!ch.go()) return;
    if (CX && o == 3) return;
    Mod p = bulk(kind, nnz, 2, 1, 3), q = kind2 == 0 ? bulk(kind, nnz / 2, 3, 0, 4) : kind2 == 1 ? bulk((kind + 1) % 4, nnz, 1, nnz / 300, 4) : bulk(kind, nnz / 100 + 1, 2, 1, 4);
    ch.note("operation %d, %zu and %zu entries", o, p.size(), q.size());
    COO a = coo(p, 0), b = coo(q, kind2); const T k = mc::scalar<T>(6); D d;
    ch.op();
    auto near = [&](const COO& r) { Mod shape; for (auto& e: d.e) shape[e.first] = T(1); bulk_entries(ch, "result", r, shape, [&](std::pair<size_t, size_t> x, const T& got) { auto& e = d.e[x]; mc::expect<T>(ch, "result", x.first * 100000 + x.second, got, e.first, e.second, 8); }); };
    switch (o) {
        case 0: a += b; d = add(model(p), model(q)); near(a); bulk_entries(ch, "right operand", b, q, exactly(ch, q)); break;
        case 1: { COO r = a + b; d = add(model(p), model(q)); near(r); bulk_entries(ch, "left operand", a, p, exactly(ch, p)); break; }
        case 2: scale(k, a); d = mul(k, model(p)); near(a); break;
        case 3: if constexpr (!CX) { COO r = minus(a, b); d = add(model(p), model(q), -1); near(r); COO s = minus(a); d = mul(T(-1), model(p)); near(s); } break;
        case 4: { COO r = k * a; d = mul(k, model(p)); near(r); break; }
        case 5: a += a; d = add(model(p), model(p)); near(a); break;
    }
}
