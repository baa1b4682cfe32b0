// S03: compressed-row matrices represent exactly their entries
#include "../mc/sparse.hpp"
using namespace lalib;

struct Raw { V v; Ids ptr, c; size_t rows; };
// raw arrays of a set of entries: `extra` empty rows at the end, columns within a row ascending or descending
static Raw raw(const Mod& m, size_t extra, bool desc) {
    Raw r; r.rows = span_of(m).first + extra; r.ptr.push_back(0);
    for (size_t i = 0; i < r.rows; ++i) {
        std::vector<std::pair<size_t, T>> row;
        for (auto& e: m) if (e.first.first == i) row.push_back({e.first.second, e.second});
        if (desc) std::reverse(row.begin(), row.end());
        for (auto& e: row) { r.c.push_back(e.first); r.v.push_back(e.second); }
        r.ptr.push_back(r.v.size());
    }
    return r;
}
static void writes(Ch& ch, CSR& a, Mod p, std::pair<size_t, size_t> s) {
    positions(s, [&](size_t i, size_t j) {
        bool has = p.count({i, j}), threw = false;
        ch.op();
        try { T x = mc::val<T>(1, i * 13 + j, 7); a.mut_at(i, j) = x; p[{i, j}] = x; }
        catch (const std::out_of_range&) { threw = true; }
        if (threw == has) ch.fail("mut_at(%zu,%zu) %s, although the position %s an entry", i, j, threw ? "throws" : "does not throw", has ? "has" : "has no");
    }, false);
    is_model(ch, "after writing every entry", a, p, s);
}
static void check(Ch& ch, const char* what, CSR a, const Mod& p, std::pair<size_t, size_t> s) {
    ch.op(2);
    if (a.nnz() != p.size()) ch.fail("%s: nnz is %zu, expected %zu", what, (size_t)a.nnz(), p.size());
    is_model(ch, what, a, p, s);
    // the exposed arrays are the compressed rows of the same entries
    auto& ptr = a.row_ptr(); auto& c = a.col_indices(); Mod seen;
    if (s.first || !ptr.empty()) {
        if (ptr.size() != s.first + 1 || ptr[0] != 0 || ptr.back() != p.size()) ch.fail("%s: the row pointers are not those of %zu rows with %zu entries", what, s.first, p.size());
        for (size_t i = 0; i < s.first; ++i) for (size_t k = ptr[i]; k < ptr[i + 1]; ++k) seen[{i, c.at(k)}] = a.values().at(k);
    }
    if (seen != p) ch.fail("%s: the exposed arrays are not the entries", what);
    // scaling and negation
    T k = mc::scalar<T>(4);
    Mod q = p; for (auto& e: q) e.second = k * e.second;
    auto near = [&](const char* w, const CSR& m, const Mod& z) {
        reads(ch, w, m, s, [&](size_t i, size_t j, const T& got) { mc::expect<T>(ch, w, i * 1000 + j, got, mc::wide(at(z, i, j)), mag(at(z, i, j)), 4); });
        if (m.nnz() != p.size()) ch.fail("%s: nnz changed", w);
    };
    ch.op(3);
    near("k * a", k * a, q); is_model(ch, "operand of k * a", a, p, s);
    if constexpr (!CX) { Mod n = p; for (auto& e: n) e.second = -e.second; near("-a", minus(a), n); is_model(ch, "operand of -a", a, p, s); }
    CSR b = a; CSR* r = &scale(k, b); if (r != &b) ch.fail("scale does not return its argument"); near("scale", b, q); is_model(ch, "source of the scaled copy", a, p, s);
    CSR t = a;
    a.reserve(40, 60); is_model(ch, "after reserve", a, p, s);
    writes(ch, a, p, s);
    is_model(ch, "copy taken before the writes", t, p, s);
}
static void sources(Ch& ch, const Mod& p, int form, int order) {
    auto s = span_of(p);
    if (form == 0) { COO c = coo(p, order); check(ch, "from a coordinate matrix", CSR(c), p, s); is_model(ch, "the coordinate matrix it was built from", c, p); }
    else if (form == 1) { COO c = coo(p, order); check(ch, "from a moved coordinate matrix", CSR(std::move(c)), p, s); }
    else {
        size_t extra = form == 4 ? 2 : 0; Raw r = raw(p, extra, form == 3); s.first += extra;
        if (order % 2) { V v = r.v; Ids a = r.ptr, b = r.c; check(ch, "from moved raw arrays", CSR(std::move(v), std::move(a), std::move(b)), p, s); }
        else check(ch, "from raw arrays", CSR(r.v, r.ptr, r.c), p, s);
    }
}
FAMILY(subsets_of_grid) {
    int g = ch.pick(4), rows = g == 0 ? 3 : g == 1 ? 2 : g == 2 ? 5 : 3, cols = g == 1 ? 5 : g == 2 ? 2 : 3;
    if (g == 3 && !mc::thorough()) { rows = 2; cols = 3; }
    int mask = ch.pick(1 << rows * cols), form = ch.pick(5), order = ch.pick(form < 2 ? 3 : 2);
    if (!ch.go()) return;
    ch.note("subset %x of a %dx%d grid, source %d, order %d", mask, rows, cols, form, order);
    sources(ch, subset(mask, rows, cols, mask % 2 ? 1 : 3, 0, g == 3 ? 3 : 1, g == 3 ? 2 : 1), form, order);
}
FAMILY(large) {
    int kind = ch.pick(PATTERNS), form = ch.pick(5), order = ch.pick(2); size_t n = ch.of({1, 2, 5, 9, 20, 33});
    if (!ch.go()) return;
    sources(ch, pattern(kind, n, 1, 2), form, order);
}
// an accumulated matrix as the source
FAMILY(from_sum) {
    int m1 = ch.pick(512), m2 = ch.of({0, 0x110, 0x0aa, 0x00f, 0x1c7}), form = ch.pick(2);
    if (!ch.go()) return;
    Mod p = subset(m1, 3, 3, 0, 0), q = subset(m2, 3, 3, 0, 1), r = p; for (auto& e: q) r[e.first] = at(r, e.first.first, e.first.second) + e.second;   // exact values
    COO a = coo(p), b = coo(q); a += b;
    check(ch, "from an accumulated matrix", form ? CSR(std::move(a)) : CSR(a), r, span_of(r));
}
FAMILY(unit) {
    size_t n = ch.pick(mc::thorough() ? 60 : 30); int form = ch.pick(2);
    if (!ch.go()) return;
    Mod p; for (size_t i = 0; i < n; ++i) p[{i, i}] = T(1);
    check(ch, "unit", form ? CSR(COO::unit(n)) : CSR::unit(n), p, {n, n});
}
FAMILY(empty) {
    int form = ch.pick(4);
    if (!ch.go()) return;
    COO c;
    if (form == 0) check(ch, "default", CSR(), {}, {0, 0});
    else if (form == 1) check(ch, "from empty coordinates", CSR(c), {}, {0, 0});
    else if (form == 2) check(ch, "from moved empty coordinates", CSR(COO()), {}, {0, 0});
    else check(ch, "from raw arrays of no rows", CSR(V{}, Ids{0}, Ids{}), {}, {0, 0});
}
FAMILY(list_lengths) {
    size_t v = ch.pick(6), c = ch.pick(6), form = ch.pick(2);
    if (!ch.go()) return;
    V a = mc::vals<T>(1, v); Ids d, ptr{0, v}; for (size_t i = 0; i < c; ++i) d.push_back(i);
    bool threw = false; ch.op();
    try { if (form) CSR(std::move(a), std::move(ptr), std::move(d)); else CSR(a, ptr, d); } catch (const std::runtime_error&) { threw = true; }
    if (threw != (v != c)) ch.fail("lists of %zu values and %zu columns: %s", v, c, threw ? "rejected" : "accepted");
}

// columns that differ only in high bits
FAMILY(wide_indices) {
    int sh = ch.of({15, 16, 31, 32, 33, 48, 62}), mask = ch.pick(64), order = ch.pick(3), form = ch.pick(3);
    if (!ch.go()) return;
    const size_t w = (size_t)1 << sh, at6[6][2] = {{1, 2}, {1, 2 + w}, {0, 2 * w}, {2, w - 1}, {2, w}, {0, 2}};
    Mod p; for (int k = 0; k < 6; ++k) if (mask >> k & 1) p[{at6[k][0], at6[k][1]}] = mc::val<T>(1, k, 4);
    COO c = coo(p, order); Raw r = raw(p, 0, order == 1);
    CSR a = form == 0 ? CSR(c) : form == 1 ? CSR(COO(c)) : CSR(r.v, r.ptr, r.c);
    ch.op(2);
    if (a.nnz() != p.size() || (!p.empty() && a.shape() != span_of(p))) ch.fail("%zu entries, shape %zux%zu", (size_t)a.nnz(), a.shape().first, a.shape().second);
    for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < 4; ++i) for (size_t j: {(size_t)0, (size_t)1, (size_t)2, w - 1, w, w + 1, w + 2, 2 * w, 2 * w + 2}) {
            ch.check(mc::same(a(i, j), ::at(p, i, j)) && mc::same(a.at(i, j), ::at(p, i, j)), "an element differs from the entry at its position");
            if (round) continue;
            bool threw = false;
            try { T x = mc::val<T>(1, (i % 7) * 13 + j % 11, 7); a.mut_at(i, j) = x; if (!p.count({i, j})) ch.fail("mut_at(%zu,%zu) is accepted although the position has no entry", i, j); p[{i, j}] = x; } catch (const std::out_of_range&) { threw = true; }
            if (threw && p.count({i, j})) ch.fail("mut_at(%zu,%zu) throws", i, j);
        }
}
FAMILY(bulk_rows_of_every_kind) {
    if (!mc::thorough() && !std::is_same_v<T, double>) return;      // the widths do not depend on the element type
    int kind = ch.pick(BULKS), form = ch.pick(4); size_t nnz = ch.of(bulk_sizes());
    if (!ch.go()) return;
    Mod p = bulk(kind, nnz, 2, 1, 3); size_t rows = span_of(p).first;
    ch.note("kind %d with %zu entries in %zu rows", kind, nnz, rows);
    COO c = coo(p, form);
    auto make = [&]() -> CSR {
        if (form == 0) return CSR(c); if (form == 1) return CSR(COO(c));
        V v; Ids ptr(rows + 1, 0), cc; for (auto& e: p) { v.push_back(e.second); cc.push_back(e.first.second); ptr[e.first.first + 1]++; } for (size_t i = 0; i < rows; ++i) ptr[i + 1] += ptr[i];
        if (form == 2) return CSR(v, ptr, cc); return CSR(std::move(v), std::move(ptr), std::move(cc));
    };
    CSR a = make(); ch.op();
    bulk_rows(ch, "as built", a, p, rows, exactly(ch, p));
    Mod q = p;
    bulk_positions(p, [&](size_t i, size_t j) {
        bool threw = false; ch.op();
        try { T x = mc::val<T>(1, i + j, 8); a.mut_at(i, j) = x; q[{i, j}] = x; } catch (const std::out_of_range&) { threw = true; }
        if (threw == (p.count({i, j}) > 0)) ch.fail("mut_at(%zu,%zu) %s", i, j, threw ? "throws" : "does not throw");
    });
    bulk_rows(ch, "after writes", a, q, rows, exactly(ch, q));
    const T k = mc::scalar<T>(4); auto scaled = [&](std::pair<size_t, size_t> x, const T& got) { mc::expect<T>(ch, "scaled", x.first * 100000 + x.second, got, mc::wide(k) * mc::wide(::at(q, x.first, x.second)), mag(k) * mag(::at(q, x.first, x.second)), 4); };
    CSR s = k * a; bulk_rows(ch, "k * a", s, q, rows, scaled); bulk_rows(ch, "operand", a, q, rows, exactly(ch, q));
    if constexpr (!CX) { CSR n = minus(a); bulk_rows(ch, "-a", n, q, rows, [&](std::pair<size_t, size_t> x, const T& got) { mc::expect<T>(ch, "negated", x.first * 100000 + x.second, got, -mc::wide(::at(q, x.first, x.second)), 0, 0); }); }
    scale(k, a); bulk_rows(ch, "scaled in place", a, q, rows, scaled);
}
