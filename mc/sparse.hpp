// Sparse matrices: plain models and observation.
#pragma once
#include "mats.hpp"
#include <map>
#include <stdexcept>
using mc::Ch;
using COO = lalib::SpCooMat<T>;
using CSR = lalib::SpMat<T>;
using Ids = std::vector<size_t>;
using Mod = std::map<std::pair<size_t, size_t>, T>;        // the entries; a position without one is zero

inline std::pair<size_t, size_t> span_of(const Mod& m) {
    std::pair<size_t, size_t> s{0, 0};
    for (auto& e: m) { s.first = std::max(s.first, e.first.first + 1); s.second = std::max(s.second, e.first.second + 1); }
    return s;
}
inline T at(const Mod& m, size_t i, size_t j) { auto it = m.find({i, j}); return it == m.end() ? T(0) : it->second; }

// entries (in the given order) as three lists
struct Lists { V v; Ids r, c; };
inline Lists lists(const Mod& m, int order) {
    std::vector<std::pair<std::pair<size_t, size_t>, T>> e(m.begin(), m.end());
    const size_t n = e.size();
    auto by_col = [](auto& a, auto& b) { return std::make_pair(a.first.second, a.first.first) < std::make_pair(b.first.second, b.first.first); };
    switch (order) {
        case 0: break;
        case 1: std::reverse(e.begin(), e.end()); break;
        case 2: std::sort(e.begin(), e.end(), by_col); break;
        case 3: std::sort(e.begin(), e.end(), by_col); std::reverse(e.begin(), e.end()); break;
        case 4: if (n) std::rotate(e.begin(), e.begin() + n / 2, e.end()); break;
        default: { auto f = e; for (size_t k = 0; k < n; ++k) e[k] = f[(k % 2) ? n - 1 - k / 2 : k / 2]; }   // zig-zag
    }
    Lists l; for (auto& x: e) { l.v.push_back(x.second); l.r.push_back(x.first.first); l.c.push_back(x.first.second); }
    return l;
}
constexpr int ORDERS = 6;
inline COO coo(const Mod& m, int order = 0, bool move = false) { auto l = lists(m, order); return move ? COO(std::move(l.v), std::move(l.r), std::move(l.c)) : COO(l.v, l.r, l.c); }

// Positions looked at: the span plus rows and columns beyond it, and far outside (index arithmetic may wrap at 2^16, 2^31, 2^32, 2^64)
template<class F> void positions(std::pair<size_t, size_t> s, F&& f, bool deep = true) {
    for (size_t i = 0; i < s.first + 2; ++i) for (size_t j = 0; j < s.second + 2; ++j) f(i, j);
    f(1000, 0); f(0, 1000); f(1u << 20, 1u << 20);
    if (!deep) { if (s.first && s.second) { f(0, s.second + ((size_t)1 << 32)); f(0, (size_t)1 << 32); f((size_t)1 << 32, 0); f(s.first - 1, (size_t)-1); } return; }
    if (s.first * s.second <= 16)
        for (size_t i = 0; i < s.first + 1; ++i) for (size_t j = 0; j < s.second + 1; ++j) {
            f(i, j + s.second); f(i, j + ((size_t)1 << 16)); f(i, j + ((size_t)1 << 32)); f(i + ((size_t)1 << 32), j);
        }
    else for (size_t i = 0; i < s.first; ++i) { f(i, (size_t)1 << 32); f(i, ((size_t)1 << 32) + i); f(i, s.second + i); f(i + ((size_t)1 << 32), i); f(i + ((size_t)1 << 31), i); }
    f(0, (size_t)-1); f((size_t)-1, 0); f((size_t)-1, (size_t)-1); f((size_t)1 << 63, 0);
}
// every read path against the model (values compared exactly, or within k roundings of `scale(i,j)` when tol)
template<class M, class Want> void reads(Ch& ch, const char* what, const M& m, std::pair<size_t, size_t> s, Want&& want) {
    auto sh = m.shape();
    if (sh != s) ch.fail("%s: shape is %zux%zu, expected %zux%zu", what, sh.first, sh.second, s.first, s.second);
    positions(s, [&](size_t i, size_t j) {
        if (!mc::same(m(i, j), m.at(i, j))) ch.fail("%s: at(%zu,%zu) and (%zu,%zu) differ", what, i, j, i, j);
        want(i, j, m(i, j));
    });
}
template<class M> void is_model(Ch& ch, const char* what, const M& m, const Mod& p, std::pair<size_t, size_t> s) {
    reads(ch, what, m, s, [&](size_t i, size_t j, const T& got) {
        if (!(got == at(p, i, j))) ch.fail("%s: element (%zu,%zu) is %s, expected %s", what, i, j, mc::str(mc::wide(got)).c_str(), mc::str(mc::wide(at(p, i, j))).c_str());
        mc::outv(ch, got);
    });
}
template<class M> void is_model(Ch& ch, const char* what, const M& m, const Mod& p) { is_model(ch, what, m, p, span_of(p)); }

// a subset of a grid as a set of entries
inline Mod subset(unsigned mask, int rows, int cols, int pat, int salt, int rs = 1, int cs = 1) {
    Mod m; int k = 0;
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j, ++k) if (mask >> k & 1) m[{(size_t)i * rs, (size_t)j * cs}] = mc::val<T>(pat, k, salt);
    return m;
}
// larger patterns: kind x size
inline Mod pattern(int kind, size_t n, int pat, int salt) {
    Mod m; auto put = [&](size_t i, size_t j) { m[{i, j}] = mc::val<T>(pat, i * 97 + j, salt); };
    for (size_t i = 0; i < n; ++i) switch (kind) {
        case 0: for (size_t j = i ? i - 1 : 0; j <= i + 1 && j < n; ++j) put(i, j); break;                    // tridiagonal
        case 1: put(i, n - 1); put(n - 1, i); put(i, i); break;                                              // arrow
        case 2: put(n - 1 - i, i); break;                                                                    // anti-diagonal
        case 3: if (i % 3 == 1) for (size_t j = 0; j < n; j += 2) put(i, j); break;                          // empty rows
        case 4: for (size_t j = 0; j <= i; ++j) put(i, j); break;                                            // lower triangle
        case 5: if (i + 1 == n) put(i, 0); break;                                                            // only the last row
        case 6: if (i == 0) for (size_t j = 0; j < n; ++j) put(0, j); break;                                 // only the first row
        default: put(i, (i * 7 + 3) % n); put(i, (i * 5 + 1) % n);
    }
    return m;
}
constexpr int PATTERNS = 8;
// only asked of element types the library negates
template<class M> M minus(const M& a) { if constexpr (!CX) return -a; else return a; }
template<class M> M minus(const M& a, const M& b) { if constexpr (!CX) return a - b; else return a; }

// ---- many entries (more than 2^16): few long rows, many rows, a diagonal, blocks; `step`, `off` shift the columns so that two of them overlap in part
constexpr int BULKS = 6;
inline Mod bulk(int kind, size_t nnz, size_t step, size_t off, int salt) {
    Mod m; auto put = [&](size_t i, size_t j) { m[{i, j}] = mc::val<T>(1, i * 131 + j, salt); };
    switch (kind) {
        case 0: for (size_t k = 0; k < nnz; ++k) put(0, off + k * step); break;
        case 1: for (size_t k = 0; k < nnz; ++k) put(k % 3, off + (k / 3) * step); break;
        case 2: for (size_t k = 0; k < nnz; ++k) put((k / 100) % 1000, off + (k % 100) * step + (k / 100000)); break;
        case 3: for (size_t k = 0; k < nnz; ++k) put(k % 257, off + (k / 257) * step); break;
        case 4: for (size_t k = 0; k < nnz; ++k) put(k * step + off, k % 2); break;                      // many rows, most of them short or empty
        default: for (size_t k = 0; k < nnz; ++k) put(k, k); break;
    }
    return m;
}
// positions worth a lookup: entries at the ends and next to powers of two, and their neighbours
template<class F> void bulk_positions(const Mod& m, F&& f) {
    std::vector<std::pair<size_t, size_t>> e; e.reserve(m.size()); for (auto& x: m) e.push_back(x.first);
    for (size_t k: {(size_t)0, (size_t)256, (size_t)32768, (size_t)65535, (size_t)65536, e.size() - 1})
        if (k < e.size()) { f(e[k].first, e[k].second); f(e[k].first, e[k].second + 1); f(e[k].first + 1, e[k].second); if (k % 2) { f(e[k].first, e[k].second + 65536); f(e[k].first + 65536, e[k].second); f(e[k].first, e[k].second % 65536); } }
}
// all entries through the exposed lists (any order), single reads where they are most likely to differ
template<class Near> void bulk_entries(Ch& ch, const char* what, const COO& a, const Mod& p, Near&& near) {
    auto &v = a.values(); auto &r = a.row_indices(), &c = a.col_indices();
    if (a.nnz() != p.size() || v.size() != p.size() || r.size() != p.size() || c.size() != p.size()) ch.fail("%s: %zu entries (%zu values), expected %zu", what, (size_t)a.nnz(), v.size(), p.size());
    if (a.shape() != span_of(p)) ch.fail("%s: shape is %zux%zu", what, a.shape().first, a.shape().second);
    std::map<std::pair<size_t, size_t>, size_t> at; for (size_t k = 0; k < r.size(); ++k) if (!at.insert({{r[k], c[k]}, k}).second) ch.fail("%s: (%zu,%zu) is stored twice", what, r[k], c[k]);
    for (auto& e: p) { auto it = at.find(e.first); if (it == at.end()) ch.fail("%s: the entry at (%zu,%zu) is lost", what, e.first.first, e.first.second); near(e.first, v[it->second]); }
    bulk_positions(p, [&](size_t i, size_t j) { if (p.count({i, j})) near({i, j}, a(i, j)); else if (!(a(i, j) == T(0)) || !(a.at(i, j) == T(0))) ch.fail("%s: (%zu,%zu) is not zero", what, i, j); });
}
template<class Near> void bulk_rows(Ch& ch, const char* what, const CSR& a, const Mod& p, size_t rows, Near&& near) {
    auto &v = a.values(); auto &ptr = a.row_ptr(), &c = a.col_indices();
    if (a.nnz() != p.size() || v.size() != p.size() || c.size() != p.size()) ch.fail("%s: %zu entries, expected %zu", what, (size_t)a.nnz(), p.size());
    if (a.shape() != std::make_pair(rows, span_of(p).second)) ch.fail("%s: shape is %zux%zu", what, a.shape().first, a.shape().second);
    if (ptr.size() != rows + 1 || ptr[0] != 0 || ptr.back() != p.size()) ch.fail("%s: row pointers", what);
    std::map<std::pair<size_t, size_t>, size_t> at;
    for (size_t i = 0; i < rows; ++i) { if (ptr[i] > ptr[i + 1]) ch.fail("%s: row %zu ends before it starts", what, i); for (size_t k = ptr[i]; k < ptr[i + 1]; ++k) at[{i, c[k]}] = k; }
    for (auto& e: p) { auto it = at.find(e.first); if (it == at.end()) ch.fail("%s: the entry at (%zu,%zu) is lost", what, e.first.first, e.first.second); near(e.first, v[it->second]); }
    bulk_positions(p, [&](size_t i, size_t j) { if (p.count({i, j})) near({i, j}, a(i, j)); else if (!(a(i, j) == T(0)) || !(a.at(i, j) == T(0))) ch.fail("%s: (%zu,%zu) is not zero", what, i, j); });
}
inline auto exactly(Ch& ch, const Mod& p) { return [&](std::pair<size_t, size_t> x, const T& got) { if (mc::me()) mc::me()->checks++; if (!(got == at(p, x.first, x.second))) ch.fail("element (%zu,%zu) is %s, expected %s", x.first, x.second, mc::str(mc::wide(got)).c_str(), mc::str(mc::wide(at(p, x.first, x.second))).c_str()); }; }
inline const std::vector<size_t>& bulk_sizes() { static const std::vector<size_t> a = {700, 66001}, b = {256, 1025, 4097, 32769, 40000, 65535, 65536, 65537, 131073, 200000}; return mc::thorough() ? b : a; }
