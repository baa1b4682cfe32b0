// mc.hpp - exhaustive bounded exploration of executions of the real library code.
//
// A *family* is a function `void f(mc::Ch& ch)` that first takes a finite number of choices with ch.pick(n) /
// ch.of(list) and, after `if (!ch.go()) return;`, executes the library on the chosen configuration and compares every
// observation with a reference model.  The explorer enumerates *every* choice vector of every family (depth-first, odometer
// order) over W worker processes; the choice vector of an execution is its replay token.
//
// Nothing is sampled: a run either completes the tree of every family or reports the deadline it hit.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <utility>
#include <vector>

namespace mc {

constexpr int MAXC = 96;
constexpr int MAXW = 64;
constexpr uint64_t TABLE = 1u << 22;

struct Slot {                          // one per worker, in shared memory: survives the death of the worker
    std::atomic<int> fam, n, running, done, capped;
    std::atomic<long> leaf;
    int v[MAXC];
    std::atomic<uint64_t> leaves, transitions, validated, checks, schedules, points, accesses, conflicts, sched_capped;
    int failed;
    char msg[6000];
};
struct Shared {
    Slot slot[MAXW];
    std::atomic<uint64_t> nstates, table_full;
    std::atomic<uint64_t> famleaves[512];
    std::atomic<uint64_t> table[TABLE];
};

inline Shared*& shared() { static Shared* s = nullptr; return s; }
inline Slot*& me() { static Slot* s = nullptr; return s; }
inline bool& thorough() { static bool t = false; return t; }
inline bool& verbose() { static bool t = false; return t; }

struct Fail : std::exception { const char* what() const noexcept override { return "mc::Fail"; } };

__attribute__((always_inline)) inline uint64_t mix(uint64_t h, uint64_t x) {
    h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}

struct Ch {
    std::vector<int> v, lim;
    size_t pos = 0;
    bool collecting = false;           // --case: run exactly v
    bool probing = false, mine = true, went = false, mid = false;
    std::vector<std::string> log;
    uint64_t h = 1469598103934665603ull;
    std::vector<double>* sink = nullptr;

    int pick(int n) {
        if (n <= 0) { fprintf(stderr, "mc: empty choice\n"); _exit(97); }
        if (pos < v.size()) {
            if (v[pos] >= n) { fprintf(stderr, "mc: choice %d out of range (%d >= %d): divergence\n", (int)pos, v[pos], n); _exit(97); }
            if (pos >= lim.size()) lim.push_back(n); else lim[pos] = n;
            return v[pos++];
        }
        v.push_back(mid ? (n > 2 ? n / 2 : n - 1) : 0); lim.push_back(n); pos++;
        return v.back();
    }
    template<class A> auto of(const A& a) -> typename std::decay<decltype(*std::begin(a))>::type {
        int n = (int)std::distance(std::begin(a), std::end(a));
        return *(std::begin(a) + pick(n));
    }
    template<class A> auto of(std::initializer_list<A> a) -> A { return *(a.begin() + pick((int)a.size())); }
    // an integer lo..hi inclusive
    int range(int lo, int hi) { return lo + pick(hi - lo + 1); }

    bool go() {
        went = true;
        h = mix(h, v.size());
        for (auto x: v) h = mix(h, (uint64_t)x + 77);
        return mine;
    }
    // --- observation ---
    void op(uint64_t n = 1) { if (me()) me()->transitions += n; }
    void state(uint64_t x) {
        if (!shared()) return;
        if (!x) x = 1;
        auto& s = *shared();
        if (s.nstates > TABLE - TABLE / 8) { s.table_full = 1; return; }
        for (uint64_t i = x & (TABLE - 1);; i = (i + 1) & (TABLE - 1)) {
            uint64_t c = s.table[i].load(std::memory_order_relaxed);
            if (c == x) return;
            if (c == 0) {
                if (s.table[i].compare_exchange_strong(c, x)) { s.nstates++; return; }
                if (c == x) return;
            }
        }
    }
    void mixd(double d) { uint64_t b; memcpy(&b, &d, 8); h = mix(h, b); }
    void out(double d) { mixd(d); if (sink) sink->push_back(d); }
    void commit() { state(h); }        // the state reached so far (inputs chosen + everything observed)

    __attribute__((format(printf, 2, 3))) void note(const char* f, ...) {
        if (!verbose()) return;
        char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        printf("  | %s\n", b); fflush(stdout);
    }
    [[noreturn]] __attribute__((format(printf, 2, 3))) void fail(const char* f, ...) {
        char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        if (me()) { snprintf(me()->msg, sizeof me()->msg, "%s", b); me()->failed = 1; }
        if (verbose()) { printf("  ! %s\n", b); fflush(stdout); }
        throw Fail();
    }
    void check(bool ok, const char* what) { if (me()) me()->checks++; if (!ok) fail("%s", what); }
};

struct Family { std::string name; std::function<void(Ch&)> fn; int tier; };
inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
struct Reg { Reg(const char* n, void (*f)(Ch&), int tier = 0) { families().push_back({n, f, tier}); } };
#define FAMILY(name) static void name(mc::Ch& ch); static mc::Reg reg_##name(#name, name); static void name(mc::Ch& ch)
// only explored in the thorough tier
#define FAMILY_T(name) static void name(mc::Ch& ch); static mc::Reg reg_##name(#name, name, 1); static void name(mc::Ch& ch)

// ---------------------------------------------------------------- elements
template<class T> struct El { using R = T; using W = long double; static constexpr bool cx = false; };
template<class T> struct El<std::complex<T>> { using R = T; using W = std::complex<long double>; static constexpr bool cx = true; };
template<class T> using Wide = typename El<T>::W;
template<class T> Wide<T> wide(const T& x) { if constexpr (El<T>::cx) return Wide<T>(x.real(), x.imag()); else return x; }
template<class T> T narrow(const Wide<T>& x) {
    using R = typename El<T>::R;
    if constexpr (El<T>::cx) return T((R)x.real(), (R)x.imag()); else return (R)x;
}
// the reference is computed in long double: where the library uses it as well both sides round
template<class T> long double eps() { using R = typename El<T>::R; return std::numeric_limits<R>::epsilon() * (std::numeric_limits<R>::digits > 60 ? 4 : 1); }
template<class T> bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }
inline std::string str(long double x) { char b[64]; snprintf(b, sizeof b, "%.17Lg", x); return b; }
template<class T> std::string str(const std::complex<T>& x) { return "(" + str((long double)x.real()) + "," + str((long double)x.imag()) + ")"; }
template<class T> std::string dump(const std::vector<T>& v) {
    std::string s = "["; size_t k = 0;
    for (auto& x: v) { if (k++) s += ", "; if (k > 24) { s += "... " + std::to_string(v.size()); break; }
        if constexpr (El<T>::cx) s += str(x); else s += str((long double)x); }
    return s + "]";
}
template<class T> void outv(Ch& ch, const T& x) {
    if constexpr (El<T>::cx) { ch.out((double)x.real()); ch.out((double)x.imag()); } else ch.out((double)x);
}

// |got - want| <= k * eps * scale   (scale = sum of the magnitudes of the terms involved)
template<class T> bool near(const T& got, const Wide<T>& want, long double scale, long double k = 4) {
    if (wide(got) == want && want - want == Wide<T>(0)) return true;
    if constexpr (El<T>::cx) {
        if (!std::isfinite((double)got.real()) || !std::isfinite((double)got.imag())) return false;
    } else if (!std::isfinite((double)got)) return false;
    const long double tol = k * eps<T>() * (scale > 0 ? scale : 0);
    if constexpr (El<T>::cx) {
        const auto d = wide(got) - want;
        if (1.4143L * std::max(std::abs(d.real()), std::abs(d.imag())) <= tol) return true;
    }
    return std::abs(wide(got) - want) <= tol;
}
template<class T> void expect(Ch& ch, const char* what, size_t i, const T& got, const Wide<T>& want, long double scale, long double k = 4) {
    if (me()) me()->checks++;
    if (!near<T>(got, want, scale, k))
        ch.fail("%s: component %zu is %s, expected %s (tolerance %s)", what, i, str(wide(got)).c_str(), str(want).c_str(), str(k * eps<T>() * scale).c_str());
    outv(ch, got);
}
template<class T> void expect_same(Ch& ch, const char* what, size_t i, const T& got, const T& want) {
    if (me()) me()->checks++;
    if (!same(got, want)) ch.fail("%s: component %zu changed from %s to %s", what, i, str(wide(want)).c_str(), str(wide(got)).c_str());
}

// Values: every pattern is a deterministic function of the position.
//  0  dyadic, distinct in small ranges, both signs: all products and sums of a few thousand terms are exact even in float
//  1  full mantissa in (-1, 1)
//  2  wide range of magnitudes 2^-12 .. 2^12
//  3  dyadic, with zeros at every third position
//  4  full mantissa, all tiny;  5  all huge;  6  tiny, ordinary and huge ones mixed
constexpr int NPAT = 7;
template<class R> constexpr int mag_exp() { return sizeof(R) == 4 ? 30 : 300; }      // squares and products of three stay normal numbers
template<class T> T val(int pat, size_t i, int salt = 0) {
    using R = typename El<T>::R;
    auto one = [&](uint64_t k) -> R {
        uint64_t z = k * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
        switch (pat) {
            case 0: { int q = (int)((k * 37 + 11) % 41) - 20; return (R)(q == 0 ? 21 : q) / 4; }
            case 1: return (R)((long double)(double)(z >> 11) / (double)(1ull << 52) - 1.0L + (std::numeric_limits<R>::digits > 60 ? (z & 1023) * 0x1p-63L : 0.0L));
            case 2: { double m = 1.0 + (double)((z >> 20) & 0xff) / 256.0; return (R)std::ldexp((z & 1) ? m : -m, (int)((z >> 1) % 25) - 12); }
            case 4: case 5: case 6: {
                double m = (double)(z >> 11) / (double)(1ull << 52) - 1.0; if (m > -0.125 && m < 0.125) m += 0.5;
                int e = pat == 4 ? -mag_exp<R>() : pat == 5 ? mag_exp<R>() : (int)((z >> 5) % 3) * mag_exp<R>() - mag_exp<R>();
                return (R)std::ldexp((R)m, e); }
            default: { if (k % 3 == 0) return 0; int q = (int)((k * 29 + 7) % 31) - 15; return (R)(q == 0 ? 16 : q) / 8; }
        }
    };
    uint64_t k = i * 2 + (uint64_t)salt * 1009;
    if constexpr (El<T>::cx) return T(one(k), one(k + 501)); else return one(k);
}
template<class T> std::vector<T> vals(int pat, size_t n, int salt = 0) {
    std::vector<T> v; v.reserve(n);
    for (size_t i = 0; i < n; ++i) v.push_back(val<T>(pat, i, salt));
    return v;
}
template<class T> T scalar(int k) {
    using R = typename El<T>::R;
    static const long double re[] = {1.0, -1.0, 0.0, 2.0, -0.5, 3.0, 0.1, -1e-3, -2.0, 0.25, 7.5, -1.5};
    static const double cr[] = {1.0, -1.0, 0.0, 2.0, -0.5, 3.0, 0.1, -1e-3, 0.0, 1.0, 0.0, -1.0};
    static const double ci[] = {0.0, 0.0, 0.0, -1.0, 0.25, 0.0, -0.7, 2.0, 1.0, 1.0, -2.0, 0.5};
    if constexpr (El<T>::cx) return T((R)cr[k], (R)ci[k]); else return (R)re[k];
}
constexpr int NSCALAR = 12;
constexpr bool dyadic_scalar(int k) { return k != 6 && k != 7; }

// call f.template operator()<N>() for the N equal to n
template<size_t... Ns, class F> void dispatch(Ch& ch, size_t n, F&& f) {
    bool hit = false;
    ((Ns == n ? (hit = true, f.template operator()<Ns>(), 0) : 0), ...);
    if (!hit) { fprintf(stderr, "mc: dispatch\n"); _exit(97); }
    (void)ch;
}

// ---------------------------------------------------------------- explorer
enum : int { OK = 0, FAILED = 1 };

// runs one execution; returns 1 if it failed
inline int run_leaf(const Family& f, Ch& ch) {
    try { f.fn(ch); }
    catch (const Fail&) { return 1; }
    catch (const std::exception& e) {
        if (me()) { snprintf(me()->msg, sizeof me()->msg, "unexpected exception %s: %s", typeid(e).name(), e.what()); me()->failed = 1; }
        if (verbose()) printf("  ! unexpected exception %s: %s\n", typeid(e).name(), e.what());
        return 1;
    }
    catch (...) {
        if (me()) { snprintf(me()->msg, sizeof me()->msg, "unexpected exception"); me()->failed = 1; }
        return 1;
    }
    return 0;
}

// next choice vector in odometer order; false when the tree is exhausted
inline bool advance(std::vector<int>& v, const std::vector<int>& lim) {
    v.resize(lim.size());
    while (!v.empty()) {
        if (v.back() + 1 < lim[v.size() - 1]) { v.back()++; return true; }
        v.pop_back();
    }
    return false;
}

// worker: explores its share of families[from..]; `upto`>=0 stops after that leaf (replaying a shard)
inline void worker(int w, int W, int from, int to, double deadline, long upto) {
    auto& fs = families();
    for (int f = from; f < to; ++f) {
        if (fs[f].tier > (thorough() ? 1 : 0)) continue;
        std::vector<int> v, lim;
        long idx = 0;
        int since = 0;
        for (;;) {
            Ch ch; ch.v = v; ch.mine = (idx % W) == w;
            if (ch.mine) {
                me()->fam = f; me()->leaf = idx; me()->failed = 0;
                me()->n = -1;
            }
            // publish the prefix; choices beyond it are 0 (a crashed worker's choice vector is completed on replay)
            if (ch.mine) { int n = std::min<int>((int)v.size(), MAXC); for (int i = 0; i < n; ++i) me()->v[i] = v[i]; me()->n = n; me()->running = 1; }
            int bad = run_leaf(fs[f], ch);
            if (ch.mine || bad) {
                int n = std::min<int>((int)ch.pos, MAXC); for (int i = 0; i < n; ++i) me()->v[i] = ch.v[i]; me()->n = n;
                me()->fam = f; me()->leaf = idx;
            }
            if (bad) _exit(3);
            if (ch.mine) {
                me()->running = 0; me()->leaves++; me()->validated++;
                shared()->famleaves[f]++;
                ch.commit();
            }
            ch.v.resize(ch.pos); ch.lim.resize(ch.pos);
            v = ch.v; lim = ch.lim;
            if (upto >= 0 && idx >= upto) return;
            if (!advance(v, lim)) break;
            ++idx;
            if (++since >= 64) {
                since = 0;
                struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
                if (deadline > 0 && ts.tv_sec + ts.tv_nsec * 1e-9 > deadline) { me()->capped = 1; break; }
            }
        }
    }
}

inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline double cpu_of(pid_t p) {
    char path[64], buf[1024]; snprintf(path, sizeof path, "/proc/%d/stat", p);
    int fd = open(path, O_RDONLY); if (fd < 0) return 0;
    ssize_t n = read(fd, buf, sizeof buf - 1); close(fd); if (n <= 0) return 0; buf[n] = 0;
    char* q = strrchr(buf, ')'); if (!q) return 0;
    unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return (double)(ut + st) / sysconf(_SC_CLK_TCK);
}

inline std::string case_id(int fam, const int* v, int n) {
    std::string s = families()[fam].name + ":";
    for (int i = 0; i < n; ++i) { if (i) s += "."; s += std::to_string(v[i]); }
    return s;
}
inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c: s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += '?'; else r += c; }
    return r;
}

inline int main(int argc, char** argv) {
    int W = 8; std::string out, one, errdir; double limit = 0, hang = 30; bool list = false; int nsamples = 0;
    std::string sh_fam; int sh_w = 0, sh_W = 1; long sh_leaf = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--workers") W = std::stoi(nx());
        else if (a == "--thorough") thorough() = true;
        else if (a == "--out") out = nx();
        else if (a == "--case") one = nx();
        else if (a == "--limit") limit = std::stod(nx());
        else if (a == "--hang") hang = std::stod(nx());
        else if (a == "--errdir") errdir = nx();
        else if (a == "--list") list = true;
        else if (a == "--samples") nsamples = std::stoi(nx());
        else if (a == "--shard") { sh_fam = nx(); sh_w = std::stoi(nx()); sh_W = std::stoi(nx()); sh_leaf = std::stol(nx()); }
    }
    auto& fs = families();
    if (W > MAXW) W = MAXW;
    shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (list) { for (auto& f: fs) printf("%s\n", f.name.c_str()); return 0; }
    if (nsamples) {                                         // executions written out, one per family
        for (auto& f: fs) if (!f.tier && nsamples-- > 0) {
            Ch probe; probe.mid = true; probe.mine = false; me() = nullptr; run_leaf(f, probe); probe.v.resize(probe.pos);
            printf("replaying %s\n", case_id((int)(&f - &fs[0]), probe.v.data(), (int)probe.v.size()).c_str());
            verbose() = true; me() = &shared()->slot[0];
            Ch ch; ch.v = probe.v; int bad = run_leaf(f, ch); verbose() = false;
            printf("  %s, outcome digest %016lx\n", bad ? "FAILED" : "OK", (unsigned long)ch.h);
        }
        return 0;
    }
    if (!one.empty()) {                                     // replay of one execution
        verbose() = true; me() = &shared()->slot[0];
        auto c = one.find(':'); std::string fam = one.substr(0, c);
        for (auto& f: fs) if (f.name == fam) {
            Ch ch; std::string rest = one.substr(c + 1); size_t p = 0;
            while (p < rest.size()) { size_t q = rest.find('.', p); if (q == std::string::npos) q = rest.size(); ch.v.push_back(std::stoi(rest.substr(p, q - p))); p = q + 1; }
            printf("replaying %s\n", one.c_str()); fflush(stdout);
            int bad = run_leaf(f, ch);
            printf("%s\n", bad ? "FAILED" : "OK");
            return bad ? 3 : 0;
        }
        fprintf(stderr, "no family %s\n", fam.c_str()); return 98;
    }
    if (sh_leaf >= 0) {                                     // replay of one worker up to a leaf
        me() = &shared()->slot[0];
        for (size_t f = 0; f < fs.size(); ++f) if (fs[f].name == sh_fam) { worker(sh_w, sh_W, (int)0, (int)f, 0, -1); worker(sh_w, sh_W, (int)f, (int)f + 1, 0, sh_leaf); }
        return 0;
    }
    double t0 = now(), deadline = limit > 0 ? t0 + limit : 0;
    struct P { pid_t pid = 0; long leaf = -1; int fam = -1; double cpu = 0, wall = 0; };
    std::vector<P> ps(W);
    std::string fails; int nfail = 0;
    std::vector<char> famfailed(fs.size(), 0);
    auto spawn = [&](int w, int from) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            me() = &shared()->slot[w];
            if (!errdir.empty()) {
                std::string e = errdir + "/worker" + std::to_string(w) + ".err";
                int fd = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
            }
            worker(w, W, from, (int)fs.size(), deadline, -1);
            me()->done = 1;
            _exit(0);
        }
        ps[w] = P(); ps[w].pid = p; ps[w].wall = now();
    };
    for (int w = 0; w < W; ++w) spawn(w, 0);
    int live = W;
    while (live > 0) {
        usleep(20000);
        for (int w = 0; w < W; ++w) {
            if (!ps[w].pid) continue;
            int st; pid_t r = waitpid(ps[w].pid, &st, WNOHANG);
            Slot& s = shared()->slot[w];
            std::string kind;
            if (r == ps[w].pid) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.done) { ps[w].pid = 0; live--; continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "mc: internal error in worker\n"); return 97; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && s.failed) kind = s.msg;
                else if (WIFSIGNALED(st)) kind = "killed by signal " + std::to_string(WTERMSIG(st));
                else kind = "exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit)";
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "mc: worker killed from outside\n"); return 96; }
            } else {
                if (s.leaf != ps[w].leaf || s.fam != ps[w].fam) { ps[w].leaf = s.leaf; ps[w].fam = s.fam; ps[w].cpu = cpu_of(ps[w].pid); ps[w].wall = now(); continue; }
                double c = cpu_of(ps[w].pid) - ps[w].cpu;
                if (c < hang && now() - ps[w].wall < hang * 8) continue;
                kill(ps[w].pid, SIGKILL); waitpid(ps[w].pid, &st, 0);
                kind = "does not terminate (no result after " + std::to_string((int)c) + " s of CPU time)";
            }
            std::string err;
            if (!errdir.empty()) {
                std::string e = errdir + "/worker" + std::to_string(w) + ".err"; FILE* f = fopen(e.c_str(), "r");
                if (f) { char b[3000]; size_t n = fread(b, 1, sizeof b, f); fclose(f); err.assign(b, n); }
            }
            int fam = s.fam;
            std::string id = case_id(fam, s.v, s.n > 0 ? (int)s.n : 0);
            if (nfail++) fails += ",\n";
            fails += "  {\"case\": \"" + jesc(id) + "\", \"family\": \"" + fs[fam].name + "\", \"worker\": " + std::to_string(w) + ", \"workers\": " + std::to_string(W)
                + ", \"leaf\": " + std::to_string((long)s.leaf) + ", \"what\": \"" + jesc(kind) + "\", \"stderr\": \"" + jesc(err) + "\"}";
            if (!famfailed[fam]) famfailed[fam] = 1;
            if (nfail >= 40) { for (auto& p: ps) if (p.pid) { kill(p.pid, SIGKILL); waitpid(p.pid, &st, 0); p.pid = 0; } live = 0; break; }
            // go on with the next family
            s.done = 0; s.failed = 0;
            spawn(w, fam + 1);
        }
    }
    uint64_t leaves = 0, tr = 0, vd = 0, ck = 0, sc[5] = {}; int capped = 0;
    for (int w = 0; w < W; ++w) { auto& s = shared()->slot[w]; leaves += s.leaves; tr += s.transitions; vd += s.validated; ck += s.checks; capped |= s.capped; sc[0] += s.schedules; sc[1] += s.points; sc[2] += s.accesses; sc[3] += s.conflicts; sc[4] += s.sched_capped; }
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"executions\": %lu, \"transitions\": %lu, \"validated\": %lu, \"comparisons\": %lu, \"states\": %lu, \"states_saturated\": %s, \"capped\": %s, \"wall_s\": %.3f,\n",
        (unsigned long)leaves, (unsigned long)tr, (unsigned long)vd, (unsigned long)ck, (unsigned long)shared()->nstates, shared()->table_full ? "true" : "false", capped ? "true" : "false", now() - t0);
    if (sc[0]) fprintf(o, " \"schedules\": {\"explored\": %lu, \"scheduling_points\": %lu, \"monitored_accesses\": %lu, \"conflicting_locations\": %lu, \"configurations_cut_off\": %lu},\n",
        (unsigned long)sc[0], (unsigned long)sc[1], (unsigned long)sc[2], (unsigned long)sc[3], (unsigned long)sc[4]);
    fprintf(o, " \"families\": {");
    bool first = true;
    for (size_t f = 0; f < fs.size(); ++f) if (shared()->famleaves[f] || fs[f].tier <= (thorough() ? 1 : 0)) { fprintf(o, "%s\"%s\": %lu", first ? "" : ", ", fs[f].name.c_str(), (unsigned long)shared()->famleaves[f]); first = false; }
    fprintf(o, "},\n \"fails\": [\n%s]}\n", fails.c_str());
    if (!out.empty()) fclose(o);
    return nfail ? 3 : 0;
}

}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
