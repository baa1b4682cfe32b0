// S01: coordinate-format matrices represent exactly their entries
#include "../mc/sparse.hpp"
using namespace lalib;

// every write position of the span and around it: succeeds on entries only, and changes that one
static void writes(Ch& ch, COO& a, Mod p, std::pair<size_t, size_t> s) {
    positions(s, [&](size_t i, size_t j) {
        bool has = p.count({i, j}), threw = false;
        ch.op();
        try { T x = mc::val<T>(1, i * 13 + j, 7); a.mut_at(i, j) = x; p[{i, j}] = x; }
        catch (const std::out_of_range&) { threw = true; }
        if (threw == has) ch.fail("mut_at(%zu,%zu) %s, although the position %s an entry", i, j, threw ? "throws" : "does not throw", has ? "has" : "has no");
    }, false);
    is_model(ch, "after writing every entry", a, p, s);
}
static void entries(Ch& ch, const COO& a, const Mod& p) {
    ch.op(3);
    if (a.nnz() != p.size()) ch.fail("nnz is %zu, expected %zu", (size_t)a.nnz(), p.size());
    if (a.values().size() != p.size() || a.row_indices().size() != p.size() || a.col_indices().size() != p.size()) ch.fail("the entry arrays do not have nnz elements");
    Mod seen;
    for (size_t k = 0; k < p.size(); ++k) seen[{a.row_indices()[k], a.col_indices()[k]}] = a.values()[k];
    if (seen != p) ch.fail("the entry arrays are not the entries the matrix was built from");
    is_model(ch, "as built", a, p);
}
FAMILY(subsets_of_grid) {
    int g = ch.pick(4), rows = g == 0 || g == 3 ? 3 : g == 1 ? 2 : 5, cols = g == 1 ? 5 : g == 2 ? 2 : 3;
    if (g == 3 && !mc::thorough()) { rows = 2; cols = 2; }
    int mask = ch.pick(1 << rows * cols), order = ch.pick(ORDERS), form = ch.pick(2), pat = mc::thorough() ? ch.of({1, 3}) : (order + form) % 2 ? 1 : 3;
    if (!ch.go()) return;
    Mod p = subset(mask, rows, cols, pat, 0, g == 3 ? 2 : 1, g == 3 ? 3 : 1);
    ch.note("subset %x of a %dx%d grid, order %d, %s, pattern %d", mask, rows, cols, order, form ? "moved lists" : "copied lists", pat);
    COO a = coo(p, order, form);
    entries(ch, a, p);
    if (form) { a.reserve(50); entries(ch, a, p); }
    writes(ch, a, p, span_of(p));
}
// every order of up to four (five) entries
FAMILY(every_insertion_order) {
    const int K = mc::thorough() ? 5 : 4;
    int mask = ch.pick(512); int n = __builtin_popcount(mask); if (n > K) mask = 0, n = 0;
    std::vector<int> left, perm; for (int i = 0; i < n; ++i) left.push_back(i);
    while (!left.empty()) { int k = ch.pick((int)left.size()); perm.push_back(left[k]); left.erase(left.begin() + k); }
    if (!ch.go()) return;
    Mod p = subset(mask, 3, 3, 1, 1);
    Lists l = lists(p, 0), q; for (int k: perm) { q.v.push_back(l.v[k]); q.r.push_back(l.r[k]); q.c.push_back(l.c[k]); }
    COO a(q.v, q.r, q.c);
    entries(ch, a, p);
}
FAMILY(large) {
    int kind = ch.pick(PATTERNS), order = ch.pick(ORDERS), pat = ch.of({1, 3}); size_t n = ch.of({1, 2, 5, 9, 20, 33}), form = ch.pick(2);
    if (!ch.go()) return;
    ch.note("pattern kind %d of size %zu, order %d", kind, n, order);
    Mod p = pattern(kind, n, pat, 2);
    COO a = coo(p, order, form);
    entries(ch, a, p);
    if (n > 9 && !mc::thorough() && (pat != 1 || form != order % 2)) return;       // every rejected write is an exception
    writes(ch, a, p, span_of(p));
}
FAMILY(unit) {
    size_t n = ch.pick(mc::thorough() ? 80 : 40);
    if (!ch.go()) return;
    Mod p; for (size_t i = 0; i < n; ++i) p[{i, i}] = T(1);
    COO a = COO::unit(n);
    entries(ch, a, p);
    writes(ch, a, p, span_of(p));
}
FAMILY(empty) {
    int form = ch.pick(4);
    if (!ch.go()) return;
    COO d, l(V{}, Ids{}, Ids{}), c(d), u = COO::unit(0);
    COO& a = form == 0 ? d : form == 1 ? l : form == 2 ? c : u;
    if (form == 2) a.reserve(3);
    entries(ch, a, {});
    writes(ch, a, {}, {0, 0});
}
FAMILY(list_lengths) {
    size_t v = ch.pick(5), r = ch.pick(5), c = ch.pick(5), form = ch.pick(2);
    if (!ch.go()) return;
    V a = mc::vals<T>(1, v); Ids b, d; for (size_t i = 0; i < r; ++i) b.push_back(i); for (size_t i = 0; i < c; ++i) d.push_back(i);
    bool threw = false; ch.op();
    try { if (form) COO(std::move(a), std::move(b), std::move(d)); else COO(a, b, d); } catch (const std::runtime_error&) { threw = true; }
    if (threw != !(v == r && r == c)) ch.fail("lists of %zu values, %zu rows, %zu columns: %s", v, r, c, threw ? "rejected" : "accepted");
}

// entries whose indices differ only in the bits above 16, 31, 32, ...
FAMILY(wide_indices) {
    int sh = ch.of({15, 16, 20, 30, 31, 32, 33, 40, 62}), mask = ch.pick(64), order = ch.pick(ORDERS), form = ch.pick(2);
    if (!ch.go()) return;
    const size_t w = (size_t)1 << sh, at[6][2] = {{1, 2}, {1, 2 + w}, {1 + w, 2}, {0, 2 * w}, {w, w}, {2, w - 1}};
    Mod p; for (int k = 0; k < 6; ++k) if (mask >> k & 1) p[{at[k][0], at[k][1]}] = mc::val<T>(1, k, 4);
    COO a = coo(p, order, form);
    ch.op(2);
    if (a.nnz() != p.size() || a.shape() != span_of(p)) ch.fail("%zu entries, shape %zux%zu", (size_t)a.nnz(), a.shape().first, a.shape().second);
    for (int round = 0; round < 2; ++round) {
        for (size_t i: {(size_t)0, (size_t)1, (size_t)2, w - 1, w, w + 1, w + 2, 2 * w}) for (size_t j: {(size_t)0, (size_t)1, (size_t)2, w - 1, w, w + 1, w + 2, 2 * w, 2 * w + 2}) {
            ch.check(mc::same(a(i, j), ::at(p, i, j)) && mc::same(a.at(i, j), ::at(p, i, j)), "an element differs from the entry at its position");
            if (round) continue;
            bool threw = false;
            try { T x = mc::val<T>(1, (i % 7) * 13 + j % 11, 7); a.mut_at(i, j) = x; p[{i, j}] = x; } catch (const std::out_of_range&) { threw = true; }
            if (threw && p.count({i, j})) ch.fail("mut_at(%zu,%zu) throws", i, j);
            if (a.nnz() != p.size()) ch.fail("mut_at(%zu,%zu) is accepted although the position has no entry", i, j);
        }
    }
}
FAMILY(bulk_entries_of_every_kind) {
    if (!mc::thorough() && !std::is_same_v<T, double>) return;      // the widths do not depend on the element type
    int kind = ch.pick(BULKS), order = mc::thorough() ? ch.pick(ORDERS) : ch.of({1, 5}), form = ch.pick(2); size_t nnz = ch.of(bulk_sizes());
    if (!ch.go()) return;
    ch.note("kind %d with %zu entries, order %d", kind, nnz, order);
    Mod p = bulk(kind, nnz, 2, 1, 3);
    COO a = coo(p, order, form); ch.op();
    bulk_entries(ch, "as built", a, p, exactly(ch, p));
    Mod q = p;
    bulk_positions(p, [&](size_t i, size_t j) {
        bool threw = false; ch.op();
        try { T x = mc::val<T>(1, i + j, 8); a.mut_at(i, j) = x; q[{i, j}] = x; } catch (const std::out_of_range&) { threw = true; }
        if (threw == (p.count({i, j}) > 0)) ch.fail("mut_at(%zu,%zu) %s", i, j, threw ? "throws" : "does not throw");
    });
    bulk_entries(ch, "after writes", a, q, exactly(ch, q));
}
