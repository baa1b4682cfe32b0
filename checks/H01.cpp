// H01: vectors and matrices are independent values - every history of constructions, copies, moves, assignments and writes
#include "../mc/sparse.hpp"
#include <optional>
#include <type_traits>
using namespace lalib;

// ---- one adapter per type: building, reading every element, writing every stored element
static Plain dense(int kind, size_t n, size_t m, int salt) {     // kind: 0 full, 1 tridiagonal, 2 lower, 3 symmetric, 4 upper, 5 Hessenberg, 6 sparse, 7 the transposed pattern, 8 as many entries per row in other columns
    Plain p(n, m);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
        bool in = kind == 0 ? true : kind == 1 ? i <= j + 1 && j <= i + 1 : kind == 2 ? j <= i : kind == 3 ? true : kind == 4 ? i <= j : kind == 5 ? i <= j + 1 : kind == 6 ? (i == j || (i + 2 * j) % 4 == 2) : kind == 7 ? (i == j || (j + 2 * i) % 4 == 2) : (i == j || (i == 0 && j == 2) || (i == 2 && j == 1));   // 3x3: {01,20}, {10,02}, {02,21} besides the diagonal
        size_t key = kind == 3 ? std::max(i, j) * 50 + std::min(i, j) : i * 50 + j;
        if (in) p(i, j) = mc::val<T>(1, key, salt);
    }
    return p;
}
static V pick(const Plain& p, int part) {       // -1/0/1 diagonals; 2 packed lower by rows; 4/5 packed by columns
    V v;
    if (part == 2) { for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j <= i; ++j) v.push_back(p(i, j)); }
    else if (part == 4 || part == 5) { for (size_t j = 0; j < p.n; ++j) for (size_t i = 0; i < p.n; ++i) if (i <= j + (part == 5)) v.push_back(p(i, j)); }
    else for (size_t i = 0; i < p.n; ++i) { long j = (long)i + part; if (j >= 0 && j < (long)p.n) v.push_back(p(i, j)); }
    return v;
}
template<size_t K> std::array<T, K> arr(const V& v) { std::array<T, K> a{}; for (size_t i = 0; i < K; ++i) a[i] = v[i]; return a; }
constexpr int SZ = 4;                                                     // size variants of dynamic types; the last has as many elements as the first, arranged differently
static const size_t NS[] = {3, 0, 5, 3, 400};                             // variant 4 is only used by family bulk
static const std::pair<size_t, size_t> SH[] = {{2, 3}, {0, 0}, {4, 2}, {3, 2}, {300, 257}};

template<class X> struct Ad;
template<> struct Ad<DV> { static Plain model(int s, int q) { return dense(0, s == 2 ? 130 : s == 4 ? 70001 : NS[s], 1, q); } static DV make(const Plain& p) { return DV(p.e); } };
template<size_t N> struct Ad<SV<N>> { static Plain model(int, int q) { return dense(0, N, 1, q); } static SV<N> make(const Plain& p) { return mkvec<SV<N>>(p.e); } };
template<> struct Ad<DM> { static Plain model(int s, int q) { return dense(0, SH[s].first, SH[s].second, q); } static DM make(const Plain& p) { return mkmat<DM>(p); } };
template<size_t N, size_t M> struct Ad<SM<N, M>> { static Plain model(int, int q) { return dense(0, N, M, q); } static SM<N, M> make(const Plain& p) { return mkmat<SM<N, M>>(p); } };
template<> struct Ad<DynTriDiagMat<T>> { static Plain model(int s, int q) { return dense(1, NS[s] ? NS[s] : 1, NS[s] ? NS[s] : 1, q); } static DynTriDiagMat<T> make(const Plain& p) { return DynTriDiagMat<T>{pick(p, -1), pick(p, 0), pick(p, 1)}; } };
template<size_t N> struct Ad<SizedTriDiagMat<T, N>> { static Plain model(int, int q) { return dense(1, N, N, q); } static SizedTriDiagMat<T, N> make(const Plain& p) { return SizedTriDiagMat<T, N>(arr<N - 1>(pick(p, -1)), arr<N>(pick(p, 0)), arr<N - 1>(pick(p, 1))); } };
template<> struct Ad<DynLowerTriMat<T>> { static Plain model(int s, int q) { return dense(2, NS[s], NS[s], q); } static DynLowerTriMat<T> make(const Plain& p) { return DynLowerTriMat<T>(p.n, pick(p, 2)); } };
template<> struct Ad<DynHermiteMat<T>> { static Plain model(int s, int q) { return dense(3, NS[s], NS[s], q); } static DynHermiteMat<T> make(const Plain& p) { return DynHermiteMat<T>(p.n, pick(p, 2)); } };
template<size_t N> struct Ad<SizedLowerTriMat<T, N>> { static Plain model(int, int q) { return dense(2, N, N, q); } static SizedLowerTriMat<T, N> make(const Plain& p) { return SizedLowerTriMat<T, N>(arr<N * (N + 1) / 2>(pick(p, 2))); } };
template<size_t N> struct Ad<SizedHermiteMat<T, N>> { static Plain model(int, int q) { return dense(3, N, N, q); } static SizedHermiteMat<T, N> make(const Plain& p) { return SizedHermiteMat<T, N>(arr<N * (N + 1) / 2>(pick(p, 2))); } };
template<> struct Ad<DynUpperTriMat<T>> { static Plain model(int s, int q) { return dense(4, NS[s], NS[s], q); } static DynUpperTriMat<T> make(const Plain& p) { return DynUpperTriMat<T>(pick(p, 4)); } };
template<> struct Ad<HessenbergMat<T>> { static Plain model(int s, int q) { return dense(5, NS[s] ? NS[s] : 1, NS[s] ? NS[s] : 1, q); } static HessenbergMat<T> make(const Plain& p) { return HessenbergMat<T>(pick(p, 5)); } };
static Mod entries(const Plain& p) { Mod m; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) if (p(i, j) != T(0)) m[{i, j}] = p(i, j); return m; }
template<> struct Ad<COO> { static Plain model(int s, int q) { const size_t n = s == 4 ? 40 : NS[s]; return dense(s == 3 ? 7 + q % 2 : 6, n, n, q); } static COO make(const Plain& p) { return coo(entries(p), 1); } };
template<> struct Ad<CSR> { static Plain model(int s, int q) { return dense(s == 3 ? 7 + q % 2 : 6, NS[s], NS[s], q); } static CSR make(const Plain& p) { return CSR(coo(entries(p), 1)); } };

template<class X> void reads_as(Ch& ch, const char* what, const X& x, const Plain& p) {
    if constexpr (requires { x.shape(); }) {
        expect_mat(ch, what, x, p);
        if (p.n < 50) for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) mc::expect_same<T>(ch, what, i * p.m + j, x.at(i, j), p(i, j));
        if constexpr (requires { x.nnz(); }) if (x.nnz() != entries(p).size()) ch.fail("%s: %zu entries, expected %zu", what, (size_t)x.nnz(), entries(p).size());
    } else expect_unchanged(ch, what, x, p.e);
    ch.op();
}
template<class X> constexpr bool symmetric = false;
template<> constexpr bool symmetric<DynHermiteMat<T>> = true;
template<size_t N> constexpr bool symmetric<SizedHermiteMat<T, N>> = true;

template<class X> struct Slot_ { std::optional<X> x; Plain p{0, 0}; bool known = false; };

constexpr int OPS = 2 * SZ + 13;
// returns false when the operation does not apply (source already moved from, or not offered by the type)
template<class X> bool apply(Ch& ch, int o, Slot_<X>* s, int step) {
    auto make = [&](int a, int size) { s[a].p = Ad<X>::model(size, 10 + step * 3 + a); s[a].x.emplace(Ad<X>::make(s[a].p)); s[a].known = true; };
    auto other = [](int a) { return 1 - a; };
    ch.op();
    if (o < 2 * SZ) { make(o / SZ, o % SZ); ch.note("make object %d, size variant %d", o / SZ, o % SZ); return true; }
    o -= 2 * SZ;
    if (o < 4) {                                                          // copy assignment, also to itself
        int a = o / 2, b = o % 2;
        if (!s[b].known) return false;
        if constexpr (std::is_copy_assignable_v<X>) {
            ch.note("object %d = object %d", a, b);
            X* r = &(*s[a].x = *s[b].x); if (r != &*s[a].x) ch.fail("assignment does not return its destination");
            s[a].p = s[b].p; s[a].known = true; return true;
        } else return false;
    }
    o -= 4;
    if (o < 2) { int a = o, b = other(a); if (!s[b].known) return false; ch.note("construct object %d as a copy of object %d", a, b); const X& src = *s[b].x; s[a].x.emplace(src); s[a].p = s[b].p; s[a].known = true; return true; }
    o -= 2;
    if (o < 2) {
        int a = o, b = other(a); if (!s[b].known) return false;
        if constexpr (std::is_move_constructible_v<X>) { ch.note("construct object %d from object %d, moved", a, b); s[a].x.emplace(std::move(*s[b].x)); s[a].p = s[b].p; s[a].known = true; s[b].known = false; return true; } else return false;
    }
    o -= 2;
    if (o < 2) {
        int a = o, b = other(a); if (!s[b].known) return false;
        if constexpr (std::is_move_assignable_v<X>) { ch.note("object %d = object %d, moved", a, b); X* r = &(*s[a].x = std::move(*s[b].x)); if (r != &*s[a].x) ch.fail("assignment does not return its destination"); s[a].p = s[b].p; s[a].known = true; s[b].known = false; return true; } else return false;
    }
    o -= 2;
    if (o < 2) {
        if (!s[o].known) return false;
        ch.note("write every element of object %d", o);
        auto& p = s[o].p; X& x = *s[o].x;
        for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) {
            if (p(i, j) == T(0)) continue;
            T v = mc::val<T>(1, i * 50 + j, 40 + step);
            if constexpr (requires { x.mut_at(i, j); }) x.mut_at(i, j) = v; else if constexpr (requires { x.shape(); }) x(i, j) = v; else x[i] = v;
            p(i, j) = v; if (symmetric<X>) p(j, i) = v;
        }
        return true;
    }
    // the moved-from or current object gets a fresh value by assignment from a temporary
    if constexpr (std::is_copy_assignable_v<X> || std::is_move_assignable_v<X>) { ch.note("object 0 = temporary"); s[0].p = Ad<X>::model(2, 90 + step); *s[0].x = Ad<X>::make(s[0].p); s[0].known = true; return true; }
    else return false;
}
template<class X> void history(Ch& ch, int s0, int s1, const int* ops, int len) {
    Slot_<X> s[2];
    for (int a = 0; a < 2; ++a) { s[a].p = Ad<X>::model(a ? s1 : s0, 1 + a); s[a].x.emplace(Ad<X>::make(s[a].p)); s[a].known = true; }
    for (int i = 0; i < len; ++i) {
        if (!apply(ch, ops[i], s, i)) return;                              // shorter histories are enumerated on their own
        for (int a = 0; a < 2; ++a) if (s[a].known) reads_as(ch, a ? "object 1" : "object 0", *s[a].x, s[a].p);
    }
    // what is moved from can still be assigned to, in either order, and destroyed
    if constexpr (std::is_copy_assignable_v<X>) for (int a = 0; a < 2; ++a) if (!s[a].known && s[1 - a].known) { *s[a].x = *s[1 - a].x; reads_as(ch, "moved-from object after assignment", *s[a].x, s[1 - a].p); }
}
constexpr int NT = 14;
template<class F> void with_type(int t, F&& f) {
    switch (t) {
        case 0: f.template operator()<DV>(); break; case 1: f.template operator()<SV<4>>(); break; case 2: f.template operator()<DM>(); break; case 3: f.template operator()<SM<2, 3>>(); break;
        case 4: f.template operator()<DynTriDiagMat<T>>(); break; case 5: f.template operator()<SizedTriDiagMat<T, 4>>(); break; case 6: f.template operator()<DynLowerTriMat<T>>(); break;
        case 7: f.template operator()<DynHermiteMat<T>>(); break; case 8: f.template operator()<SizedLowerTriMat<T, 3>>(); break; case 9: f.template operator()<SizedHermiteMat<T, 3>>(); break;
        case 10: f.template operator()<DynUpperTriMat<T>>(); break; case 11: f.template operator()<HessenbergMat<T>>(); break; case 12: f.template operator()<COO>(); break; case 13: f.template operator()<CSR>(); break;
    }
}
FAMILY(histories) {
    int t = ch.pick(NT); const int L = mc::thorough() ? 4 : 3; bool fixed = t == 1 || t == 3 || t == 5 || t == 8 || t == 9;
    int s0 = fixed ? 0 : ch.pick(SZ), s1 = fixed ? 0 : ch.pick(SZ), ops[4];
    for (int i = 0; i < L; ++i) { ops[i] = ch.pick(OPS); if (fixed && ops[i] < 2 * SZ && ops[i] % SZ) { if (!ch.go()) return; return; } }
    if (!ch.go()) return;
    with_type(t, [&]<class X>() { history<X>(ch, s0, s1, ops, L); });
}
// objects built from a sequence do not share storage with it; results of operations do not share with operands
FAMILY(sources_stay_apart) {
    int what = ch.pick(6); size_t n = ch.of({1, 3, 130});
    if (!ch.go()) return;
    V v = mc::vals<T>(1, n, 3), keep = v;
    auto spoil = [&] { for (auto& x: v) x = T(55); };
    ch.op();
    switch (what) {
        case 0: { DV x(v); spoil(); expect_unchanged(ch, "vector", x, keep); x[0] = T(1); if (v[0] != T(55)) ch.fail("the source list changed"); break; }
        case 1: { DM x(n, 1, v); spoil(); expect_mat(ch, "matrix", x, Plain(n, 1, keep)); break; }
        case 2: { V l(n - 1, T(2)); DynTriDiagMat<T> x(l, v, l); spoil(); l.assign(n - 1, T(9)); for (size_t i = 0; i < n; ++i) if (x(i, i) != keep[i] || (i && x(i, i - 1) != T(2))) ch.fail("the tridiagonal matrix changed with its source"); break; }
        case 3: { Ids r(n), c(n); for (size_t i = 0; i < n; ++i) r[i] = c[i] = i; COO x(v, r, c); spoil(); r[0] = 7; for (size_t i = 0; i < n; ++i) if (x(i, i) != keep[i]) ch.fail("the sparse matrix changed with its source"); break; }
        case 4: { Ids p(n + 1), c(n); for (size_t i = 0; i < n; ++i) { p[i] = i; c[i] = i; } p[n] = n; CSR x(v, p, c); spoil(); p[0] = 7; c[0] = 9; for (size_t i = 0; i < n; ++i) if (x(i, i) != keep[i]) ch.fail("the sparse matrix changed with its source"); break; }
        case 5: { DV a(v), b(v); DV s = a + b, k = T(2) * a; a[0] = T(55); b[0] = T(66); for (size_t i = 0; i < n; ++i) if (s[i] != keep[i] + keep[i] || k[i] != keep[i] + keep[i]) ch.fail("the result changed with an operand"); break; }
    }
}
// lists: objects stored in containers that copy and move them around
FAMILY(in_containers) {
    int t = ch.pick(NT), n = ch.range(1, 9), erase = ch.pick(3);
    if (!ch.go()) return;
    with_type(t, [&]<class X>() {
        if constexpr (std::is_copy_constructible_v<X>) {
            std::vector<X> c; std::vector<Plain> p;
            for (int i = 0; i < n; ++i) { p.push_back(Ad<X>::model(i % SZ, i)); c.push_back(Ad<X>::make(p.back())); ch.op(); }
            if constexpr (std::is_copy_assignable_v<X>) {
                if (erase == 1 && n > 1) { c.erase(c.begin()); p.erase(p.begin()); }
                if (erase == 2 && n > 1) { std::reverse(c.begin(), c.end()); std::reverse(p.begin(), p.end()); std::swap(c.front(), c.back()); std::swap(p.front(), p.back()); }
            }
            auto d = c;
            for (size_t i = 0; i < p.size(); ++i) { reads_as(ch, "element of the list", c[i], p[i]); reads_as(ch, "element of the copied list", d[i], p[i]); }
        }
    });
}
// large objects: more than 2^16 elements
FAMILY(bulk) {
    static const int types[] = {0, 2, 4, 6, 7, 10, 11, 12, 13};
    int t = types[ch.pick(9)], s0 = ch.pick(2) * 4, s1 = 4 - (s0 ? ch.pick(2) * 4 : 0), ops[2], len = t == 0 || t == 2 ? 2 : 1;
    for (int i = 0; i < len; ++i) ops[i] = 2 * SZ + ch.pick(OPS - 2 * SZ);
    if (!ch.go()) return;
    with_type(t, [&]<class X>() { history<X>(ch, s0, s1, ops, len); });
}
