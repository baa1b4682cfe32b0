// F06: solver objects are reusable and side-effect free - every history of solve calls on one object and its copies
#include "../mc/solve.hpp"
#include "../mc/sparse.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include <memory>
using namespace lalib;
using namespace lalib::solver;

static Plain matrix(int which) {
    if (which == 0) return Plain(1, 1, V{T(3)});
    size_t n = which == 1 ? 3 : which == 2 ? 5 : 9; Plain a(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { size_t d = i > j ? i - j : j - i; a(i, j) = d == 0 ? T(4 + i % 2) : d == 1 ? T(-1) : (d == n - 1 && which != 2) ? T(0.5) : T(0); }
    return a;
}
static Plain tri(int which) { Plain a = matrix(which); for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < a.n; ++j) { if (i > j + 1 || j > i + 1) a(i, j) = 0; else if (j == i + 1) a(i, j) = T(-1.25); } return a; }
static Plain asym(int which) { Plain a = matrix(which); for (size_t i = 0; i + 1 < a.n; ++i) a(i, i + 1) = T(-1.5); return a; }

static void close(Ch& ch, const char* what, const std::vector<LD>& got, const std::vector<LD>& want) {
    LD m = 0; for (LD x: want) m = std::max(m, std::fabs(x));
    if (got.size() != want.size()) ch.fail("%s: %zu values, a fresh solver gives %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        if (mc::me()) mc::me()->checks++;
        if (!(std::fabs(got[i] - want[i]) <= 256 * mc::eps<T>() * m)) ch.fail("%s: component %zu is %Lg, a fresh solver gives %Lg", what, i, got[i], want[i]);
        ch.out((double)got[i]);
    }
}
static std::vector<LD> flat(const DV& v) { std::vector<LD> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
static std::vector<LD> flat(const DM& m) { std::vector<LD> r; for (size_t i = 0; i < m.shape().first; ++i) for (size_t j = 0; j < m.shape().second; ++j) r.push_back(m(i, j)); return r; }

struct Box {                                     // a solver of one kind
    virtual ~Box() = default;
    virtual std::vector<LD> call(Ch& ch, int form, size_t n, int rhs) = 0;
    virtual std::vector<LD> factors() const = 0;
    virtual std::unique_ptr<Box> copy() const = 0;
};
constexpr int FORMS = 4;
constexpr int NRHS = 3;                          // the last one is partly zero, and tiny
static V vrhs(size_t n, int r) { V b = mc::vals<T>(1, n, r + 3); if (r % NRHS == 2) for (size_t i = 0; i < n; ++i) b[i] = 2 * i < n ? T(0) : pow2_times(b[i], -mc::mag_exp<T>() / 2); return b; }
static Plain mrhs(size_t n, int r) { Plain b = pmat(1, n, r == 1 ? 2 : r == 2 ? 3 : 9, r + 5); return r == 2 ? zeroed(b, 4) : b; }
template<class F> struct Fact: Box {             // factorisations: copying and in-place solves
    F f; Fact(F x): f(std::move(x)) {}
    std::vector<LD> call(Ch& ch, int form, size_t n, int r) override {
        if (form < 2) {
            V b = vrhs(n, r); DV v(b); if (form) { f.solve_linear_mut(v); return flat(v); }
            const F& c = f; DV x = c.solve_linear(v); expect_unchanged(ch, "input of a copying solve", v, b); return flat(x);
        }
        Plain b = mrhs(n, r); DM m = mkmat<DM>(b); if (form == 3) { f.solve_linear_mut(m); return flat(m); }
        DM x = f.solve_linear(m); expect_mat(ch, "input of a copying solve", m, b); return flat(x);
    }
    std::vector<LD> factors() const override {
        std::vector<LD> r; auto put = [&](auto& m) { for (size_t i = 0; i < m.shape().first; ++i) for (size_t j = 0; j <= i; ++j) r.push_back(m(i, j)); };
        if constexpr (requires { f.factor_mat(); }) put(f.factor_mat()); else put(f.lower_mat());
        return r;
    }
    std::unique_ptr<Box> copy() const override { return std::make_unique<Fact>(F(f)); }
};
template<class F> struct Tdma: Box {
    F f; Tdma(F x): f(std::move(x)) {}
    std::vector<LD> call(Ch& ch, int form, size_t n, int r) override {
        if (form < 2) {
            V b = vrhs(n, r); DV v(b), x(mc::vals<T>(0, n, 1)); if (form) { f.solve_linear(v, v); return flat(v); }
            f.solve_linear(v, x); expect_unchanged(ch, "right-hand side", v, b); return flat(x);
        }
        Plain b = mrhs(n, r); DM m = mkmat<DM>(b), x = mkmat<DM>(pmat(0, n, b.m, 1)); if (form == 3) { f.solve_linear(m, m); return flat(m); }
        f.solve_linear(m, x); expect_mat(ch, "right-hand sides", m, b); return flat(x);
    }
    std::vector<LD> factors() const override { return {}; }
    std::unique_ptr<Box> copy() const override { return std::make_unique<Tdma>(F(f)); }
};
template<class F> struct Iter: Box {              // solve(vector) only
    F f; Iter(F x): f(std::move(x)) {}
    std::vector<LD> call(Ch& ch, int form, size_t n, int r) override {
        V b = form == 3 ? V(n, T(0)) : vrhs(n, r + 2 * form); DV v(b);
        const F& c = f; DV x = form == 1 ? f.solve(v) : c.solve(v); expect_unchanged(ch, "right-hand side", v, b);
        if (form == 2) { v = f.solve(v); close(ch, "solve assigned onto its right-hand side", flat(v), flat(x)); }
        return flat(x);
    }
    std::vector<LD> factors() const override {
        std::vector<LD> r; if constexpr (requires { f.mat(); }) { auto& m = f.mat(); for (size_t i = 0; i < m.shape().first; ++i) for (size_t j = 0; j < m.shape().second; ++j) r.push_back(m(i, j)); }
        return r;
    }
    std::unique_ptr<Box> copy() const override { return std::make_unique<Iter>(F(f)); }
};
static CSR csr(const Plain& p) { Mod m; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) if (p(i, j) != T(0)) m[{i, j}] = p(i, j); return CSR(coo(m)); }
template<size_t N> static std::array<T, N> arr(const V& v) { std::array<T, N> a{}; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }
constexpr int KINDS = 9;
static std::unique_ptr<Box> build(int kind, int which) {
    Plain s = matrix(which), t = tri(which), a = asym(which); const size_t n = s.n;
    const T tol = sizeof(T) == 4 ? T(1e-3) : T(1e-10);
    V l, d, u; for (size_t i = 0; i < n; ++i) { d.push_back(t(i, i)); if (i + 1 < n) { l.push_back(t(i + 1, i)); u.push_back(t(i, i + 1)); } }
    switch (kind) {
        case 0: return std::make_unique<Fact<DynCholeskyFactorization<T>>>(DynCholeskyFactorization<T>(mkmat<DM>(s)));
        case 1: { V p; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) p.push_back(s(i, j)); return std::make_unique<Fact<DynTriCholeskyFactorization<T>>>(DynTriCholeskyFactorization<T>(DynHermiteMat<T>(n, std::move(p)))); }
        case 2: return std::make_unique<Fact<DynModCholeskyFactorization<T>>>(DynModCholeskyFactorization<T>(mkmat<DM>(s)));
        case 3: return std::make_unique<Tdma<TriDiag<DynTriDiagMat<T>>>>(TriDiag<DynTriDiagMat<T>>(DynTriDiagMat<T>(l, d, u)));
        case 4: {
            std::unique_ptr<Box> r;
            auto go = [&]<size_t N>() { if (n == N) r = std::make_unique<Tdma<TriDiag<SizedTriDiagMat<T, N>>>>(TriDiag<SizedTriDiagMat<T, N>>(SizedTriDiagMat<T, N>(arr<N - 1>(l), arr<N>(d), arr<N - 1>(u)))); };
            go.template operator()<1>(); go.template operator()<3>(); go.template operator()<5>(); go.template operator()<9>();
            return r;
        }
        case 5: return std::make_unique<Iter<Ilu<T, DM>>>(Ilu<T, DM>(mkmat<DM>(a)));
        case 6: return std::make_unique<Iter<Ilu<T, CSR>>>(Ilu<T, CSR>(csr(a)));
        case 7: return std::make_unique<Iter<Gmres<T, DM>>>(Gmres<T, DM>(mkmat<DM>(a), tol));
        default: return std::make_unique<Iter<Gmres<T, CSR>>>(Gmres<T, CSR>(csr(a), tol));
    }
}
FAMILY(histories) {
    static const char* names[] = {"Cholesky (dense)", "Cholesky (packed)", "modified Cholesky", "tridiagonal (dynamic)", "tridiagonal (fixed-size)", "ILU (dense)", "ILU (compressed rows)", "GMRES (dense)", "GMRES (compressed rows)"};
    const int L = mc::thorough() ? 4 : 3, OPS = NRHS * FORMS + 2;
    int kind = ch.pick(KINDS), which = ch.pick(mc::thorough() ? 3 : 4), ops[4];
    for (int i = 0; i < L; ++i) ops[i] = ch.pick(OPS);
    if (!ch.go()) return;
    ch.note("%s, matrix %d", names[kind], which);
    const size_t n = matrix(which).n;
    std::vector<std::unique_ptr<Box>> objs; size_t cur = 0;
    std::vector<std::vector<LD>> wants(NRHS * FORMS);          // from fresh solvers, before the history: none is used in between
    for (int i = -1; i < L; ++i) { int o = i < 0 ? 0 : ops[i]; if (o < NRHS * FORMS && wants[o].empty()) { ch.op(); wants[o] = build(kind, which)->call(ch, o / NRHS, n, o % NRHS); } }
    objs.push_back(build(kind, which));
    auto f0 = objs[0]->factors();
    auto solve = [&](Box& b, int form, int rhs) { ch.op(); close(ch, "solution", b.call(ch, form, n, rhs), wants[form * NRHS + rhs]); };
    for (int i = 0; i < L; ++i) {
        int o = ops[i];
        if (o < NRHS * FORMS) { ch.note("solve form %d, right-hand side %d, on object %zu", o / NRHS, o % NRHS, cur); solve(*objs[cur], o / NRHS, o % NRHS); }
        else if (o == NRHS * FORMS) { ch.note("copy object %zu and go on with the copy", cur); objs.push_back(objs[cur]->copy()); cur = objs.size() - 1; }
        else { ch.note("go on with the first object"); if (cur) objs.erase(objs.begin() + cur); cur = 0; }
        for (auto& x: objs) if (x->factors() != f0) ch.fail("the factors changed");
    }
    for (auto& x: objs) solve(*x, 0, 0);          // all objects are still good
}
// two solvers of any kinds and sizes, used in turn
FAMILY(interleaved) {
    int k1 = ch.pick(KINDS), k2 = ch.pick(KINDS), w1 = ch.pick(4), w2 = ch.pick(4), form = ch.pick(FORMS), r = ch.pick(NRHS);
    if (!ch.go()) return;
    ch.note("solver kind %d of matrix %d and kind %d of matrix %d, form %d, right-hand side %d", k1, w1, k2, w2, form, r);
    const size_t n1 = matrix(w1).n, n2 = matrix(w2).n;
    ch.op(7);
    auto a = build(k1, w1); auto wa = a->call(ch, form, n1, r);
    auto b = build(k2, w2); auto wb = b->call(ch, form, n2, (r + 1) % NRHS);
    for (int i = 0; i < 2; ++i) { close(ch, "first solver after the second", a->call(ch, form, n1, r), wa); close(ch, "second solver after the first", b->call(ch, form, n2, (r + 1) % NRHS), wb); }
    auto c = build(k2, w2); close(ch, "a new solver", c->call(ch, form, n2, (r + 1) % NRHS), wb);
    a.reset(); close(ch, "second solver after the first is gone", b->call(ch, form, n2, (r + 1) % NRHS), wb);
}
// one right-hand side object and one result object, rewritten in place between the solves; the solver must look at the contents each time
template<class S, class B> static void rewritten_steps(Ch& ch, const S& s, S* mut, B& v, int how, int kinds, auto&& fill, auto&& read, auto&& fresh) {
    B r = v; std::vector<std::vector<LD>> wants; for (int k = 0; k < 4; ++k) wants.push_back(fresh(k));      // beforehand: no other solver is used between the steps
    for (int step = 0; step < 4; ++step) {
        int k = (kinds >> (2 * step)) & 3; fill(v, k);
        const auto& want = wants[k]; auto before = read(v);
        ch.op();
        if constexpr (requires { s.solve(v); }) { if (how % 2) r = s.solve(v); else { auto x = s.solve(v); close(ch, "solve", read(x), want); r = x; } }
        else if constexpr (requires { s.solve_linear(v); }) {
            if (how == 0) r = s.solve_linear(v); else if (how == 1) { auto x = s.solve_linear(v); r = x; } else { s.solve_linear_mut(v); close(ch, "in place", read(v), want); continue; }
        } else { if (how < 2) mut->solve_linear(v, r); else { mut->solve_linear(v, v); close(ch, "in place", read(v), want); continue; } }
        close(ch, "solution for a rewritten right-hand side", read(r), want);
        if (read(v) != before) ch.fail("the right-hand side changed");
    }
}
FAMILY(rewritten_right_hand_side) {
    int kind = ch.pick(KINDS), which = ch.pick(4), how = ch.pick(3), mat = ch.pick(2), seq = ch.pick(256);
    if (!ch.go()) return;
    if (kind >= 5 && (mat || how == 2)) return;
    ch.note("solver kind %d of matrix %d, %s, form %d, contents %d %d %d %d", kind, which, mat ? "matrix" : "vector", how, seq & 3, seq >> 2 & 3, seq >> 4 & 3, seq >> 6 & 3);
    const size_t n = matrix(which).n;
    auto content = [&](int k, size_t i) { return k == 3 ? T(0) : mc::val<T>(k == 2 ? 3 : 1, i, k + 3); };
    auto box = build(kind, which);
    auto run = [&](auto* b) {
        auto& s = b->f; auto* ms = &b->f;
        auto read = [](const auto& x) { return flat(x); };
        if (!mat) {
            DV v(V(n, T(1)));
            auto fill = [&](DV& x, int k) { for (size_t i = 0; i < n; ++i) x[i] = content(k, i); };
            auto fresh = [&](int k) { auto f = build(kind, which); auto& g = dynamic_cast<std::remove_reference_t<decltype(*b)>&>(*f).f; DV w(V(n, T(0))); fill(w, k); if constexpr (requires { g.solve(w); }) return flat(g.solve(w)); else if constexpr (requires { g.solve_linear(w); }) return flat(g.solve_linear(w)); else { DV y(V(n, T(0))); g.solve_linear(w, y); return flat(y); } };
            rewritten_steps(ch, s, ms, v, how, seq, fill, read, fresh);
        } else if constexpr (!requires (DV w) { s.solve(w); }) {
            DM v(n, 3, V(n * 3, T(1)));
            auto fill = [&](DM& x, int k) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < 3; ++j) x(i, j) = content(k, i * 3 + j); };
            auto fresh = [&](int k) { auto f = build(kind, which); auto& g = dynamic_cast<std::remove_reference_t<decltype(*b)>&>(*f).f; DM w(n, 3, V(n * 3, T(0))); fill(w, k); if constexpr (requires { g.solve_linear(w); }) return flat(g.solve_linear(w)); else { DM y(n, 3, V(n * 3, T(0))); g.solve_linear(w, y); return flat(y); } };
            rewritten_steps(ch, s, ms, v, how, seq, fill, read, fresh);
        }
    };
    switch (kind) {
        case 0: run(dynamic_cast<Fact<DynCholeskyFactorization<T>>*>(box.get())); break;
        case 1: run(dynamic_cast<Fact<DynTriCholeskyFactorization<T>>*>(box.get())); break;
        case 2: run(dynamic_cast<Fact<DynModCholeskyFactorization<T>>*>(box.get())); break;
        case 3: run(dynamic_cast<Tdma<TriDiag<DynTriDiagMat<T>>>*>(box.get())); break;
        case 4: { auto go = [&]<size_t N>() { if (n == N) run(dynamic_cast<Tdma<TriDiag<SizedTriDiagMat<T, N>>>*>(box.get())); }; go.template operator()<1>(); go.template operator()<3>(); go.template operator()<5>(); go.template operator()<9>(); break; }
        case 5: run(dynamic_cast<Iter<Ilu<T, DM>>*>(box.get())); break;
        case 6: run(dynamic_cast<Iter<Ilu<T, CSR>>*>(box.get())); break;
        case 7: run(dynamic_cast<Iter<Gmres<T, DM>>*>(box.get())); break;
        default: run(dynamic_cast<Iter<Gmres<T, CSR>>*>(box.get())); break;
    }
}
