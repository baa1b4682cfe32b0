// S04: sparse matrix-vector product equals the dense product
#include "../mc/sparse.hpp"
using namespace lalib;

static CSR make(const Mod& p, int form, size_t rows) {
    if (form < 2) { COO c = coo(p, 1); return form ? CSR(std::move(c)) : CSR(c); }
    V v; Ids ptr{0}, cc;
    for (size_t i = 0; i < rows; ++i) { for (auto& e: p) if (e.first.first == i) { v.push_back(e.second); cc.push_back(e.first.second); } ptr.push_back(v.size()); }
    return CSR(v, ptr, cc);
}
static void products(Ch& ch, const CSR& a, const Mod& p, size_t rows, size_t cols, int al, int be, bool alias, int pat) {
    T alpha = mc::scalar<T>(al), beta = mc::scalar<T>(be);
    V x = mc::vals<T>(pat, cols, 11), y = alias ? x : mc::vals<T>(pat, rows, 12);
    ch.note("%zux%zu, %zu entries, alpha #%d, beta #%d%s", rows, cols, p.size(), al, be, alias ? ", y is x" : "");
    std::vector<W> ax(rows, W(0)); std::vector<long double> s(rows, 0); std::vector<int> terms(rows, 0);
    for (auto& e: p) { auto i = e.first.first, j = e.first.second; ax[i] += mc::wide(e.second) * mc::wide(x[j]); s[i] += mag(e.second) * mag(x[j]); terms[i]++; }
    DynVec<T> vx(x), vy(y);
    auto& dst = alias ? vx : vy;
    ch.op();
    auto* r = &mul(alpha, a, vx, beta, dst);
    if (r != &dst) ch.fail("mul does not return its destination");
    if (dst.size() != rows) ch.fail("mul changes the length of its destination");
    for (size_t i = 0; i < rows; ++i)
        mc::expect<T>(ch, "a*A*x + b*y", i, dst[i], mc::wide(alpha) * ax[i] + mc::wide(beta) * mc::wide(y[i]), mag(alpha) * s[i] + mag(beta) * mag(y[i]), 8 + 2 * terms[i]);
    if (!alias) expect_unchanged(ch, "x", vx, x);
    is_model(ch, "the matrix", a, p, {rows, span_of(p).second});
    if (!alias) {
        ch.op();
        auto z = a * vx;
        if (z.size() != rows) ch.fail("A * x has length %zu, expected %zu", (size_t)z.size(), rows);
        for (size_t i = 0; i < rows; ++i) mc::expect<T>(ch, "A * x", i, z[i], ax[i], s[i], 8 + 2 * terms[i]);
        expect_unchanged(ch, "x of A * x", vx, x);
    }
}
FAMILY(subsets_of_grid) {
    int g = ch.pick(3), rows = g == 0 ? 3 : g == 1 ? 2 : 5, cols = g == 0 ? 3 : g == 1 ? 5 : 2;
    int mask = ch.pick(1 << rows * cols), form = ch.pick(2), sc = ch.pick(mc::thorough() ? mc::NSCALAR * mc::NSCALAR : mc::NSCALAR), pat = ch.of({1, 0});
    if (!ch.go()) return;
    Mod p = subset(mask, rows, cols, pat, 0); auto s = span_of(p);
    int al = mc::thorough() ? sc / mc::NSCALAR : sc, be = mc::thorough() ? sc % mc::NSCALAR : (sc * 5 + mask) % mc::NSCALAR;
    products(ch, make(p, form, 0), p, s.first, s.second, al, be, false, pat);
}
FAMILY(aliased) {
    int mask = ch.pick(512), al = ch.pick(mc::NSCALAR), be = ch.pick(mc::NSCALAR);
    if (!ch.go()) return;
    Mod p = subset(mask, 3, 3, 1, 1); auto s = span_of(p); size_t n = std::max(s.first, s.second);
    if (s.second < s.first) p[{0, n - 1}] = T(2);           // aliasing needs a square shape
    products(ch, make(p, 2, n), p, n, n, al, be, true, 1);
}
FAMILY(scalars) {
    int al = ch.pick(mc::NSCALAR), be = ch.pick(mc::NSCALAR), kind = ch.pick(PATTERNS), pat = ch.of({0, 1, 2}); bool alias = ch.pick(2); size_t n = ch.of({1, 2, 3, 8, 31});
    if (!ch.go()) return;
    Mod p = pattern(kind, n, pat, 3);
    if (span_of(p).second < n) p[{0, n - 1}] = T(1);
    products(ch, make(p, 2, n), p, n, n, al, be, alias, pat);
}
// large enough for more than one block or thread
FAMILY(large) {
    size_t n = ch.of({64, 65, 127, 128, 129, 200, 1000, 1025, 5000}); int kind = ch.of({0, 2, 3, 5, 6, 7}), al = ch.of({0, 6}), be = ch.of({0, 2, 6}); bool alias = ch.pick(2);
    if (!ch.go()) return;
    if (kind == 3 && n > 1025) return;                       // millions of entries
    Mod p = pattern(kind, n, 1, 3); if (span_of(p).second < n) p[{n / 2, n - 1}] = T(1);
    T alpha = mc::scalar<T>(al), beta = mc::scalar<T>(be);
    CSR a = make(p, 0, 0);
    size_t rows = a.shape().first;
    if (alias && rows != n) return;
    V x = mc::vals<T>(1, n, 5), y = alias ? x : mc::vals<T>(1, rows, 6);
    std::vector<W> ax(rows, W(0)); std::vector<long double> s(rows, 0); std::vector<int> terms(rows, 0);
    for (auto& e: p) { auto i = e.first.first; if (i >= rows) continue; ax[i] += mc::wide(e.second) * mc::wide(x[e.first.second]); s[i] += mag(e.second) * mag(x[e.first.second]); terms[i]++; }
    DynVec<T> vx(x), vy(y); auto& dst = alias ? vx : vy;
    ch.op();
    mul(alpha, a, vx, beta, dst);
    for (size_t i = 0; i < rows; ++i) mc::expect<T>(ch, "a*A*x + b*y", i, dst[i], mc::wide(alpha) * ax[i] + mc::wide(beta) * mc::wide(y[i]), mag(alpha) * s[i] + mag(beta) * mag(y[i]), 8 + 2 * terms[i]);
    if (!alias) expect_unchanged(ch, "x", vx, x);
}
// the same matrix object used repeatedly, y accumulating
FAMILY(repeated) {
    int mask = ch.pick(512), k = ch.of({2, 3});
    if (!ch.go()) return;
    Mod p = subset(mask, 3, 3, 0, 1); CSR a = make(p, mask % 2, 0); auto s = span_of(p);
    V x = mc::vals<T>(0, s.second, 2), y = mc::vals<T>(0, s.first, 4); DynVec<T> vx(x), vy(y);
    std::vector<W> w; std::vector<long double> m; for (auto& e: y) { w.push_back(mc::wide(e)); m.push_back(mag(e)); }
    for (int r = 0; r < k; ++r) {
        ch.op(); mul(T(1), a, vx, T(1), vy);
        for (auto& e: p) { w[e.first.first] += mc::wide(e.second) * mc::wide(x[e.first.second]); m[e.first.first] += mag(e.second) * mag(x[e.first.second]); }
        for (size_t i = 0; i < w.size(); ++i) mc::expect<T>(ch, "accumulated product", i, vy[i], w[i], m[i], 30);
    }
}
// more entries, rows or columns than fit in sixteen bits
FAMILY(bulk_products) {
    int kind = ch.pick(BULKS), form = ch.pick(2), k = ch.pick(4); size_t nnz = ch.of(bulk_sizes());
    if (!ch.go()) return;
    static const int ks[][2] = {{0, 2}, {6, 7}, {0, 0}, {2, 4}}; T alpha = mc::scalar<T>(ks[k][0]), beta = mc::scalar<T>(ks[k][1]);
    Mod p = bulk(kind, nnz, 2, 1, 3); auto sp = span_of(p); size_t rows = sp.first, cols = sp.second;
    COO c = coo(p, 0); CSR a = form ? CSR(std::move(c)) : CSR(c);
    for (int pat: {0, 1}) {
        V x = mc::vals<T>(pat, cols, 5), y = mc::vals<T>(pat, rows, 6); DynVec<T> vx(x), vy(y);
        std::vector<W> ax(rows, W(0)); std::vector<long double> s(rows, 0); std::vector<int> terms(rows, 0);
        for (auto& e: p) { auto i = e.first.first; ax[i] += mc::wide(e.second) * mc::wide(x[e.first.second]); s[i] += mag(e.second) * mag(x[e.first.second]); terms[i]++; }
        ch.op(2);
        mul(alpha, a, vx, beta, vy); auto z = a * vx;
        if (z.size() != rows || vy.size() != rows) ch.fail("length of the product");
        for (size_t i = 0; i < rows; ++i) {
            mc::expect<T>(ch, "a*A*x + b*y", i, vy[i], mc::wide(alpha) * ax[i] + mc::wide(beta) * mc::wide(y[i]), mag(alpha) * s[i] + mag(beta) * mag(y[i]), 8 + 2 * terms[i]);
            mc::expect<T>(ch, "A * x", i, z[i], ax[i], s[i], 8 + 2 * terms[i]);
        }
        expect_unchanged(ch, "x", vx, x);
    }
    bulk_rows(ch, "the matrix", a, p, rows, exactly(ch, p));
}
