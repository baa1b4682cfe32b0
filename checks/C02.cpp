// C02: concurrent use of separate or shared-constant objects does not interfere
#include "../mc/solve.hpp"
#include "../mc/sparse.hpp"
#include "../mc/sched.hpp"
#include "../mc/conc.hpp"
#include "lalib/ops/orthogonal.hpp"
#ifdef ELEM_REAL
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#endif
#include <memory>
#include <optional>
#include <thread>
#include <omp.h>
using namespace lalib;
#ifdef ELEM_REAL
using namespace lalib::solver;
#endif

constexpr size_t N = 5, M = 3, L = 20;
static Plain spd5() { Plain a(N, N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a(i, j) = i == j ? T(6 + (int)i) : (i + 1 == j || j + 1 == i) ? T(-1) : (i + j == 4) ? T(0.5) : T(0); return a; }
static Plain asym5() { Plain a = spd5(); a(0, 1) = T(-1.5); a(2, 3) = T(0.75); return a; }
static Mod entries(const Plain& p) { Mod m; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j < p.m; ++j) if (p(i, j) != T(0)) m[{i, j}] = p(i, j); return m; }
static V low(const Plain& p) { V v; for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j <= i; ++j) v.push_back(p(i, j)); return v; }
static V up(const Plain& p) { V v; for (size_t j = 0; j < p.n; ++j) for (size_t i = 0; i <= j; ++i) v.push_back(p(i, j)); return v; }
static V hess(const Plain& p) { V v; for (size_t j = 0; j < p.n; ++j) for (size_t i = 0; i < p.n; ++i) if (i <= j + 1) v.push_back(p(i, j)); return v; }
template<size_t K> static std::array<T, K> arr(const V& v) { std::array<T, K> a{}; for (size_t i = 0; i < K; ++i) a[i] = v[i]; return a; }
static Plain g(size_t n, size_t m, int who, int salt = 0) { return pmat(1, n, m, 7 * who + salt); }
static V gv(size_t n, int who, int salt = 0) { return mc::vals<T>(1, n, 7 * who + salt); }

// what the threads share and only read
struct Shared {
    DV x{gv(L, 9)}, y{gv(L, 10)}, v{gv(N, 11)}; SV<3> s3{mkvec<SV<3>>(gv(3, 12))}; SV<17> s17{mkvec<SV<17>>(gv(17, 13))};
    DM a{mkmat<DM>(g(N, N, 9))}, b{mkmat<DM>(g(N, M, 10))}, big{mkmat<DM>(g(6, 7, 11))}; SM<2, 2> m22{mkmat<SM<2, 2>>(Plain(2, 2, V{T(2), T(1), T(1), T(3)}))}; SM<3, 3> m33{mkmat<SM<3, 3>>(g(3, 3, 12))};
    COO c{coo(entries(asym5()), 5)}, c2{coo(pattern(7, N, 1, 3), 2)}; CSR r{coo(entries(asym5()), 1)};
    DynTriDiagMat<T> td{V(N - 1, T(-1)), gv(N, 14), gv(N - 1, 15)}; SizedTriDiagMat<T, 4> ts{arr<3>(gv(3, 16)), arr<4>(gv(4, 17)), arr<3>(gv(3, 18))};
    DynLowerTriMat<T> lo{N, low(g(N, N, 19))}; DynHermiteMat<T> he{N, low(g(N, N, 20))};
    DynUpperTriMat<T> ut{up([] { Plain p = g(N, N, 21); for (size_t i = 0; i < N; ++i) p(i, i) = T(5 + (int)i); return p; }())}; HessenbergMat<T> hm{hess(g(N, N, 22))};
#ifdef ELEM_REAL
    static constexpr T tol() { return sizeof(T) == 4 ? T(1e-4) : T(1e-11); }
    DynCholeskyFactorization<T> ch{mkmat<DM>(spd5())}; DynTriCholeskyFactorization<T> tch{DynHermiteMat<T>(N, low(spd5()))}; DynModCholeskyFactorization<T> mch{mkmat<DM>(spd5())};
    Ilu<T, DM> ild{mkmat<DM>(asym5())}; Ilu<T, CSR> ils{CSR(coo(entries(asym5())))};
    Gmres<T, DM> gmd{mkmat<DM>(asym5()), tol()}; Gmres<T, CSR> gms{CSR(coo(entries(asym5()))), tol()};
    DynTriDiagMat<T> dd{V(N - 1, T(-1)), V(N, T(4)), V(N - 1, T(-1.25))};
    TriDiag<DynTriDiagMat<T>> tdma{DynTriDiagMat<T>{V(N - 1, T(-1)), V(N, T(4)), V(N - 1, T(-1.25))}};
#endif
};
using Sink = sched::Sink;
template<class X> static void put(Sink& s, const X& x) { for (size_t i = 0; i < (size_t)x.size(); ++i) conc::push(s, x[i]); }
template<class X> static void putm(Sink& s, const X& x) { for (size_t i = 0; i < x.shape().first; ++i) for (size_t j = 0; j < x.shape().second; ++j) conc::push(s, x(i, j)); }
struct Op { const char* name; void (*run)(const Shared&, int who, Sink&); };
#define OP(name, ...) Op{name, [](const Shared& h, int who, Sink& s) { (void)h; (void)who; __VA_ARGS__ }}
static const Op ops[] = {
    OP("add vectors of length 20", DV a(gv(L, who)), b(gv(L, who, 1)), r(gv(L, who, 2)); add(a, b, r); put(s, r); r = a + h.x; put(s, r);),
    OP("subtract vectors of length 3", DV a(gv(3, who)), b(gv(3, who, 1)); DV r = a - b; put(s, r); r = -r; put(s, r);),
    OP("axpy and scale", DV a(gv(L, who)); axpy(T(2), h.x, a); scale(T(0.5), a); put(s, a); auto r = T(3) * h.y; put(s, r);),
    OP("inner product and norm of shared vectors", conc::push(s, dot(h.x, h.y)); conc::push(s, h.x.norm2()); DV a(gv(7, who)); conc::push(s, a.norm2()); conc::push(s, dot(a, a));),
    OP("fixed-size vectors", SV<17> a = mkvec<SV<17>>(gv(17, who)); a = a + h.s17; put(s, a); conc::push(s, a.norm2()); conc::push(s, dot(h.s17, a));),
    OP("cross products", SV<3> a = mkvec<SV<3>>(gv(3, who)); auto r = cross(h.s3, a); put(s, r); DV d(gv(3, who, 1)); auto q = cross(d, h.s3); put(s, q);),
    OP("copy, fill and resize by assignment", DV a(h.x); put(s, a); a = DV(gv(6, who)); put(s, a); a = h.v; put(s, a);),
    OP("length mismatch", try { DV a(gv(4, who)), b(gv(5, who)); a = a + b; s.push_back(1); } catch (const std::exception&) { s.push_back(2); }),
    OP("shared matrix times own vector", DV v(gv(N, who)), y(gv(N, who, 1)); mul(T(2), h.a, v, T(-1), y); put(s, y); auto w = h.a * v; put(s, w);),
    OP("own matrix times shared vector", DM a = mkmat<DM>(g(M, N, who)); auto w = a * h.v; put(s, w);),
    OP("matrix product", DM a = mkmat<DM>(g(M, N, who)); auto r = a * h.a; putm(s, r); DM c = mkmat<DM>(g(M, M, who, 1)); mul(T(1), a, h.b, T(2), c); putm(s, c);),
    OP("fixed-size matrices", SM<3, 3> a = mkmat<SM<3, 3>>(g(3, 3, who)); auto r = a * h.m33; putm(s, r); auto v = h.m33 * h.s3; put(s, v); r = r + a; putm(s, r);),
    OP("2x2 inverse", auto i = inverted(h.m22); putm(s, i); SM<2, 2> a = mkmat<SM<2, 2>>(Plain(2, 2, V{T(3 + who), T(1), T(1), T(4)})); invert(a, a); putm(s, a); invert(a); putm(s, a);),
    OP("element-wise matrix operations", DM a = mkmat<DM>(g(6, 7, who)); auto r = a + h.big; putm(s, r); r = h.big - a; scale(T(2), r); putm(s, r); putm(s, -h.big);),
    OP("products into their own operands", DM a = mkmat<DM>(g(N, N, who)), e = mkmat<DM>(g(N, N, who, 1)); mul(T(1), a, e, T(0), a); putm(s, a); mul(T(2), a, e, T(-1), e); putm(s, e); mul(T(0.5), a, a, T(1), a); putm(s, a); DV v(gv(N, who)); mul(T(1), e, v, T(0), v); put(s, v); mul(T(2), h.a, v, T(1), v); put(s, v);),
    OP("fixed-size products into their own operands", SM<3, 3> a = mkmat<SM<3, 3>>(g(3, 3, who)), e = mkmat<SM<3, 3>>(g(3, 3, who, 1)); mul(T(1), a, h.m33, T(0), a); putm(s, a); mul(T(1), h.m33, e, T(2), e); putm(s, e); SV<3> v = mkvec<SV<3>>(gv(3, who)); mul(T(1), a, v, T(1), v); put(s, v);),
    OP("sparse product into its own operand", DV v(gv(N, who)); mul(T(2), h.r, v, T(-1), v); put(s, v); CSR q(coo(pattern(0, N, 1, who), 1)); mul(T(1), q, v, T(0), v); put(s, v);),
    OP("element-wise operations into their own operands", DV a(gv(L, who)), b(gv(L, who, 1)); add(a, b, a); sub(a, b, b); neg(a, a); put(s, a); put(s, b); axpy(T(2), a, a); put(s, a); DM c = mkmat<DM>(g(6, 7, who)); add(c, h.big, c); sub(c, c, c); add(c, h.big, c); putm(s, c);
       SV<3> x = mkvec<SV<3>>(gv(3, who)), y = mkvec<SV<3>>(gv(3, who, 1)); x = cross(x, y); put(s, x);),
    OP("long vectors and larger matrices", DV a(gv(150, who)), b(gv(150, who, 1)), r(gv(150, who, 2)); add(a, b, r); sub(r, a, a); axpy(T(2), r, b); conc::push(s, dot(a, b)); put(s, b); DM c = mkmat<DM>(g(18, 19, who)), d = mkmat<DM>(g(19, 18, who, 1)), e = mkmat<DM>(g(18, 18, who, 2)); mul(T(1), c, d, T(2), e); mul(T(1), e, e, T(0), e); add(e, e, e); for (size_t i = 0; i < 18; ++i) conc::push(s, e(i, (i * 5) % 18));),
    OP("larger sparse matrices", const size_t n = 13; COO a = coo(pattern(1, n, 1, who), 3), b = coo(pattern(4, n, 1, who), 1); a += b; CSR c(a); DV v(gv(c.shape().second, who)), y(gv(c.shape().first, who, 1)); mul(T(2), c, v, T(-1), y); put(s, y); s.push_back(c.nnz());),
    OP("read a shared coordinate-format matrix", putm(s, h.c); conc::push(s, h.c2(17, 1)); s.push_back(h.c2.shape().first);),
    OP("copy a shared coordinate-format matrix and accumulate", COO a(h.c); a += h.c2; putm(s, a); COO b = coo(subset(0x1b + who, 3, 3, 1, who)); b = b + h.c; putm(s, b); scale(T(2), b); putm(s, b);),
    OP("own coordinate-format matrices", COO a = coo(pattern(1 + who % 3, 4, 1, who), 3); COO b(a); b += a; putm(s, b); a = minus(b, a); putm(s, a);),
    OP("read a shared compressed-row matrix", putm(s, h.r); conc::push(s, h.r(9, 9)); s.push_back(h.r.nnz());),
    OP("build a compressed-row matrix", CSR a(h.c); putm(s, a); CSR b(coo(pattern(4, 4, 1, who), 1)); putm(s, b); b = a; putm(s, b);),
    OP("shared compressed-row matrix times vector", DV v(gv(N, who)), y(gv(N, who, 1)); mul(T(2), h.r, v, T(-1), y); put(s, y); auto w = h.r * v; put(s, w); DV u(h.v); w = h.r * u; put(s, w);),
    OP("read shared structured matrices", putm(s, h.td); putm(s, h.ts); putm(s, h.lo); putm(s, h.he); putm(s, h.ut); putm(s, h.hm);),
    OP("own structured matrices", DynTriDiagMat<T> a(gv(3, who), gv(4, who, 1), gv(3, who, 2)); const auto& ca = a; a(0, 0) = T(who); putm(s, ca); DynLowerTriMat<T> l(3, gv(6, who)); const auto& cl = l; l(2, 1) = T(7 + who); putm(s, cl);
       DynHermiteMat<T> e(3, gv(6, who, 3)); putm(s, (const DynHermiteMat<T>&)e); try { a(0, 3) = T(1); s.push_back(1); } catch (const std::exception&) { s.push_back(2); } auto t = h.he; putm(s, (const DynHermiteMat<T>&)t);),
    OP("growing matrices", HessenbergMat<T> m(V{}); for (int k = 0; k < 4; ++k) m.extend_with(gv(k ? k + 2 : 1, who, k)); putm(s, (const HessenbergMat<T>&)m); DynUpperTriMat<T> u; for (int k = 0; k < 3; ++k) u.extend_with(gv(k + 1, who, k)); putm(s, (const DynUpperTriMat<T>&)u);),
    OP("back substitution with a shared matrix", V b = gv(N, who); h.ut.back_sub(b); put(s, b); DV d(gv(N, who, 1)); h.ut.back_sub(d); put(s, d);),
#ifdef ELEM_REAL
    OP("Gram-Schmidt", std::vector<DV> v; for (int k = 0; k < 3; ++k) { V q = gv(N, who, k); q[k] += T(8); v.emplace_back(q); } orth::cgs(v); for (auto& x: v) put(s, x);),
    OP("solve with a shared Cholesky factorisation", DV b(gv(N, who)); auto x = h.ch.solve_linear(b); put(s, x); h.ch.solve_linear_mut(b); put(s, b); DM m = mkmat<DM>(g(N, M, who)); auto y = h.ch.solve_linear(m); putm(s, y); SV<N> c = mkvec<SV<N>>(gv(N, who, 1)); auto z = h.ch.solve_linear(c); put(s, z);),
    OP("solve with a shared packed Cholesky factorisation", DV b(gv(N, who)); auto x = h.tch.solve_linear(b); put(s, x); h.tch.solve_linear_mut(b); put(s, b); DM m = mkmat<DM>(g(N, M, who)); auto y = h.tch.solve_linear(m); putm(s, y); putm(s, h.tch.lower_mat());),
    OP("solve with a shared modified Cholesky factorisation", DV b(gv(N, who)); auto x = h.mch.solve_linear(b); put(s, x); h.mch.solve_linear_mut(b); put(s, b); DM m = mkmat<DM>(g(N, M, who)); auto y = h.mch.solve_linear(m); putm(s, y);),
    OP("Cholesky factorisation", Plain a = spd5(); a(0, 0) += T(who); DynCholeskyFactorization<T> f(mkmat<DM>(a)); DV b(gv(N, who)); f.solve_linear_mut(b); put(s, b); DynModCholeskyFactorization<T> m(mkmat<DM>(a)); DV c(gv(N, who)); m.solve_linear_mut(c); put(s, c);
       try { DynCholeskyFactorization<T> q(mkmat<DM>(Plain(2, 2, V{T(1), T(2), T(2), T(1)}))); s.push_back(1); } catch (const std::exception&) { s.push_back(2); }),
    OP("packed Cholesky factorisation", Plain a = spd5(); a(1, 1) += T(who); DynTriCholeskyFactorization<T> f(DynHermiteMat<T>(N, low(a))); DV b(gv(N, who)); f.solve_linear_mut(b); put(s, b);),
    OP("tridiagonal solve, own solver of a shared matrix", TriDiag<DynTriDiagMat<T>> t{DynTriDiagMat<T>(h.dd)}; DV b(gv(N, who)), x(gv(N, who, 1)); t.solve_linear(b, x); put(s, x); t.solve_linear(b, b); put(s, b); DM m = mkmat<DM>(g(N, M, who)); t.solve_linear(m, m); putm(s, m);),
    OP("tridiagonal solve, copy of a shared solver", auto t = h.tdma; DV b(gv(N, who)); t.solve_linear(b, b); put(s, b);),
    OP("shared incomplete LU", DV b(gv(N, who)); auto x = h.ild.solve(b); put(s, x); x = h.ils.solve(b); put(s, x); putm(s, h.ils.mat());),
    OP("incomplete LU", Plain a = asym5(); a(0, 0) += T(who); Ilu<T, DM> f(mkmat<DM>(a)); DV b(gv(N, who)); auto x = f.solve(b); put(s, x); Ilu<T, CSR> q{CSR(coo(entries(a)))}; x = q.solve(b); put(s, x);),
    OP("shared dense GMRES", DV b(gv(N, who)); auto x = h.gmd.solve(b); put(s, x);),
    OP("shared compressed-row GMRES", DV b(gv(N, who)); auto x = h.gms.solve(b); put(s, x);),
    OP("GMRES", Plain a = asym5(); a(2, 2) += T(who); Gmres<T, CSR> q{CSR(coo(entries(a))), Shared::tol()}; DV b(gv(N, who)); auto x = q.solve(b); put(s, x);),
#endif
};
constexpr int OPS = sizeof ops / sizeof *ops;
constexpr int ACTORS = 4;

// rounding may differ (a reduction over a team): far above that, far below any interference
static double tol() { return sizeof(R) == 4 ? 2e-3 : 1e-8; }
static sched::Config cfg(int threads, int levels = 1) { sched::Config c; c.max_threads = threads; c.active_levels = levels; c.bound = 2; return c; }
// what the operation gives on its own
static const Sink& alone(Ch& ch, int op, int who) {
    static std::map<std::pair<int, int>, Sink> memo;
    auto it = memo.find({op, who}); if (it != memo.end()) return it->second;
    auto o = sched::once(cfg(1), [&](Sink& s) { Shared h; ops[op].run(h, who, s); });
    if (o.status) ch.fail("%s on its own: %s", ops[op].name, o.msg.c_str());
    return memo[{op, who}] = o.vals;
}
static Sink expected(Ch& ch, const std::vector<int>& run) { Sink e; for (size_t i = 0; i < run.size(); ++i) { const Sink& s = alone(ch, run[i], (int)i); e.insert(e.end(), s.begin(), s.end()); } return e; }
// every actor's share is judged relative to its own magnitude
static void judge(Ch& ch, const sched::Outcome& o, const std::vector<int>& run, int threads) {
    if (o.status) ch.fail("%s (schedule %s)", o.msg.c_str(), conc::schedule(o).c_str());
    size_t at = 0;
    for (size_t i = 0; i < run.size(); ++i) {
        const Sink& e = alone(ch, run[i], (int)i); double m = 0; for (double x: e) m = std::max(m, std::fabs(x));
        for (size_t k = 0; k < e.size(); ++k, ++at) {
            if (at >= o.vals.size()) ch.fail("%s (actor %zu) gives fewer values than on its own (schedule %s)", ops[run[i]].name, i, conc::schedule(o).c_str());
            if (mc::me()) mc::me()->checks++;
            if (!(std::fabs(o.vals[at] - e[k]) <= tol() * m)) ch.fail("%s (actor %zu): value %zu is %.17g, on its own it is %.17g (schedule %s)", ops[run[i]].name, i, k, o.vals[at], e[k], conc::schedule(o).c_str());
            ch.out(o.vals[at]);
        }
    }
    if (at != o.vals.size()) ch.fail("more values than expected");
    (void)threads;
}
static void explore(Ch& ch, const std::vector<int>& run, const sched::Config& c, const std::function<void(const Shared&, std::vector<Sink>&)>& go) {
    for (size_t i = 0; i < run.size(); ++i) { ch.note("actor %zu: %s", i, ops[run[i]].name); alone(ch, run[i], (int)i); }
    conc::run(ch, c, [&](Sink& s) {
        Shared h; std::vector<Sink> out(run.size()); for (auto& o: out) o.reserve(512);
        go(h, out);
        for (auto& o: out) s.insert(s.end(), o.begin(), o.end());
    }, [&](const sched::Outcome& o) { judge(ch, o, run, c.max_threads); });
}
static void on_threads(Ch& ch, const std::vector<int>& run, int team) {
    explore(ch, run, cfg(team), [&](const Shared& h, std::vector<Sink>& out) {
        std::vector<std::thread> t;
        for (size_t i = 0; i < run.size(); ++i) t.emplace_back([&, i] { ops[run[i]].run(h, (int)i, out[i]); });
        for (auto& x: t) x.join();
    });
}
// two threads, every pair of operations
FAMILY(two_threads) {
    int a = ch.pick(OPS), b = ch.pick(OPS), team = ch.of(std::vector<int>{1, 2});
    if (!mc::thorough() && team == 2 && a != b && a > 3 && b > 3) return;
    if (!ch.go()) return;
    on_threads(ch, {a, b}, team);
}
FAMILY(three_threads) {
    int a = ch.pick(OPS), b = mc::thorough() ? ch.pick(OPS) : a;
    if (!ch.go()) return;
    on_threads(ch, {a, b, a}, 1);
}
// the library called from inside the caller's own OpenMP constructs
FAMILY(inside_parallel) {
    int ctx = ch.pick(6), a = ch.pick(OPS), b = ch.pick(mc::thorough() ? 5 : 2), levels = 1 + ch.pick(2);
    b = b == 0 ? a : (a * 7 + b * 5) % OPS;
    if (!ch.go()) return;
    static const char* names[] = {"every thread of a team of two", "every thread of a team of three", "a single construct", "the master thread only", "a work-shared loop of three calls", "tasks"};
    ch.note("called from: %s, %d active level(s)", names[ctx], levels);
    const std::vector<int> run = ctx == 0 || ctx == 5 ? std::vector<int>{a, b} : ctx == 1 || ctx == 4 ? std::vector<int>{a, b, a} : std::vector<int>{a};
    explore(ch, run, cfg(2, levels), [&](const Shared& h, std::vector<Sink>& out) {
        auto call = [&](int i) { ops[run[i]].run(h, i, out[i]); };
        switch (ctx) {
            case 0:
                #pragma omp parallel num_threads(2)
                call(omp_get_thread_num());
                break;
            case 1:
                #pragma omp parallel num_threads(3)
                call(omp_get_thread_num());
                break;
            case 2:
                #pragma omp parallel num_threads(2)
                {
                    #pragma omp single
                    call(0);
                }
                break;
            case 3:
                #pragma omp parallel num_threads(2)
                {
                    #pragma omp master
                    call(0);
                }
                break;
            case 4:
                #pragma omp parallel for num_threads(2) schedule(static, 1)
                for (int i = 0; i < 3; ++i) call(i);
                break;
            case 5:
                #pragma omp parallel num_threads(2)
                {
                    #pragma omp single
                    {
                        #pragma omp task
                        call(0);
                        #pragma omp task
                        call(1);
                        #pragma omp taskwait
                    }
                }
                break;
        }
    });
}
