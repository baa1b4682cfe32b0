// omprt.cpp - controlled OpenMP/pthread runtime and access monitor (see sched.hpp).  Compiled without instrumentation.
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);

namespace {
constexpr int MAXT = 40;
constexpr int MAXDEC = 8192;
constexpr int MAXCONF = 1 << 14;
constexpr int MAXVAL = 1 << 16;
using VC = std::vector<uint32_t>;

struct Shm {
    int prefix_n; unsigned char prefix[MAXDEC];
    int ndec; unsigned char nch[MAXDEC], chosen[MAXDEC], cur_on[MAXDEC];
    int truncated, sync_used, nconf; uint64_t conf[MAXCONF];
    int nvals; double vals[MAXVAL];
    uint64_t points, accesses; int threads, status; char msg[500];
};
Shm* shm = nullptr;
struct USet {                                   // conflicting granules known before this execution
    std::unordered_set<uint64_t> s; uint64_t bloom[1024];
    void clear() { s.clear(); __real_memset(bloom, 0, sizeof bloom); }
    static uint64_t h(uint64_t g) { return (g * 0x9E3779B97F4A7C15ull) >> 48; }
    void add(uint64_t g) { s.insert(g); bloom[h(g) >> 6] |= 1ull << (h(g) & 63); }
    bool has(uint64_t g) const { return (bloom[h(g) >> 6] >> (h(g) & 63) & 1) && s.count(g); }
} known;

struct Team;
struct Th {
    int id = -1; std::atomic<int> token{0};
    std::function<bool()> ready; bool done = true, alive = false, has_job = false;
    VC vc; Team* team = nullptr; int tnum = 0;
    std::function<void()> job; std::vector<int> pool;
    int spins = 0, ws = 0; void* ret = nullptr; bool detached = false; bool os = false;
    int icv = 0; bool inrt = false;
    struct Task* task = nullptr;
};
struct Task { std::function<void()> fn; Task* parent = nullptr; int pending = 0; VC vc; };
struct Loop { bool init = false; unsigned long long next = 0, end = 0, chunk = 1; bool up = true; unsigned long long incr = 1; bool gl = false; int left = 0; long ord_next = 0; };
struct Team {
    int n = 1, level = 0, active = 0; Team* up = nullptr; int up_tnum = 0;
    int arrived = 0; long gen = 0; VC bvc; std::map<int, Loop> loops; std::map<int, int> single; void* copyp = nullptr; int finished = 0;
    std::deque<Task*> tasks; int running_tasks = 0;
};
sched::Config cfg;
bool active = false;
int cur = 0, used_cost = 0, nalive = 0, nthreads = 0;
Th th[MAXT];
thread_local Th* me __attribute__((tls_model("initial-exec"))) = nullptr;
std::map<const void*, VC>* syncs;

struct In { bool o; In() { o = me ? me->inrt : false; if (me) me->inrt = true; } ~In() { if (me) me->inrt = o; } };

void fwait(std::atomic<int>& a) { while (a.load() == 0) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0); }
void fpost(std::atomic<int>& a) { a.store(1); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
[[noreturn]] void stop(int status, const char* msg) { shm->status = status; snprintf(shm->msg, sizeof shm->msg, "%s", msg); _exit(0); }

void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
void tick(Th& t) { if (t.vc.size() <= (size_t)t.id) t.vc.resize(t.id + 1, 0); t.vc[t.id]++; }

bool enabled(Th& t) { return t.alive && !t.done && (!t.ready || t.ready()); }

// choose who runs next; `stay`: the current thread could go on
void reschedule(bool yielding = false) {
    Th& self = *me;
    int e[MAXT], n = 0; bool on = false;
    for (int k = 0; k < nthreads; ++k) { int i = (cur + k) % nthreads; if (enabled(th[i])) { if (i == cur) on = true; e[n++] = i; } }
    if (n == 0) stop(2, "deadlock: no thread can run");
    if (yielding && on && n > 1) { std::rotate(e, e + 1, e + n); on = false; }       // a spinning thread lets the others go first
    int pick = 0;
    if (n > 1) {
        ++shm->points;
        if (shm->ndec < MAXDEC) {
            int d = shm->ndec++;
            if (d < shm->prefix_n) pick = shm->prefix[d];
            if (pick >= n) stop(5, "schedule replay diverged");
            shm->nch[d] = n; shm->chosen[d] = pick; shm->cur_on[d] = on;
        } else shm->truncated = 1;
    }
    int next = e[pick];
    if (next != cur) {
        cur = next;
        bool mine = !self.done;
        self.spins = 0;
        fpost(th[next].token);
        if (mine) fwait(self.token);
    }
    if (++shm->points > 40000000ull) stop(3, "no progress: scheduling point limit reached");
}
void point() { if (nalive > 1) reschedule(); }
void sync_point() { if (nalive > 1) { shm->sync_used = 1; reschedule(); } }
void block_until(std::function<bool()> p) {
    if (p()) return;
    me->ready = std::move(p);
    reschedule();
    me->ready = nullptr;
}
void acquire_of(const void* p) { auto it = syncs->find(p); if (it != syncs->end()) join(me->vc, it->second); }
void release_to(const void* p) { join((*syncs)[p], me->vc); tick(*me); }

void* os_main(void* p) {
    Th* t = (Th*)p; me = t;
    for (;;) {
        fwait(t->token);
        t->job();
        In in;
        t->done = true; t->alive = false; --nalive; t->ready = nullptr;
        reschedule();
    }
}
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
Th& start(std::function<void()> job) {
    int id = -1;
    if (!me->pool.empty()) { id = me->pool.back(); me->pool.pop_back(); }
    else { if (nthreads >= MAXT) stop(4, "too many threads"); id = nthreads++; th[id].id = id; }
    Th& t = th[id];
    uint32_t own = t.vc.size() > (size_t)id ? t.vc[id] : 0;
    t.vc = me->vc; if (t.vc.size() <= (size_t)id) t.vc.resize(id + 1, 0); t.vc[id] = std::max(t.vc[id], own) + 1;
    tick(*me);
    t.job = std::move(job); t.done = false; t.alive = true; t.ready = nullptr; t.team = nullptr; t.tnum = 0; t.spins = 0; t.ws = 0; t.task = nullptr; t.icv = me->icv; t.detached = false;
    ++nalive; shm->threads = std::max(shm->threads, nalive);
    if (!t.os) {
        t.os = true; pthread_t h; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
        if (real_create(&h, &a, os_main, &t)) stop(4, "cannot create a thread");
    }
    return t;
}

// ---------------------------------------------------------------- access monitor
struct Cell { uint64_t g; uint32_t wt, wc; uint32_t rc[MAXT]; bool reported; };
constexpr uint64_t CELLS = 1 << 16;
Cell* cells = nullptr; uint64_t ncells = 0;
void conflict(Cell& c) { if (c.reported) return; c.reported = true; if (known.has(c.g)) return; if (shm->nconf < MAXCONF) shm->conf[shm->nconf++] = c.g; }
Cell* cell(uint64_t g) {
    for (uint64_t i = (g * 0x9E3779B97F4A7C15ull) >> 48;; i = (i + 1) & (CELLS - 1)) {
        if (cells[i].g == g) return &cells[i];
        if (cells[i].g == 0) { if (++ncells > CELLS - 64) return nullptr; cells[i].g = g; cells[i].wt = UINT_MAX; return &cells[i]; }
    }
}
void touch(uint64_t g, bool write) {
    Cell* c = cell(g); if (!c) { shm->truncated = 1; return; }
    Th& t = *me; const VC& v = t.vc; auto at = [&](uint32_t i) { return i < v.size() ? v[i] : 0; };
    if (c->wt != UINT_MAX && c->wt != (uint32_t)t.id && c->wc > at(c->wt)) conflict(*c);
    if (write) {
        for (int i = 0; i < nthreads; ++i) if (i != t.id && c->rc[i] > at(i)) conflict(*c);
        c->wt = t.id; c->wc = at(t.id);
    } else c->rc[t.id] = at(t.id);
}
inline __attribute__((always_inline)) void access(const void* p, size_t n, bool write) {
    if (!active || nalive < 2) return;
    Th* t = me; if (!t || t->inrt) return;
    In in;
    ++shm->accesses;
    uint64_t a = (uint64_t)p >> 2, b = ((uint64_t)p + (n ? n - 1 : 0)) >> 2;
    bool hit = false;
    if (!known.s.empty()) for (uint64_t g = a; g <= b && !hit; ++g) hit = known.has(g);
    if (hit) reschedule();
    for (uint64_t g = a; g <= b; ++g) touch(g, write);
}

// ---------------------------------------------------------------- teams
int level_active(Team* t) { int k = 0; for (; t; t = t->up) k += t->n > 1; return k; }
void run_one_task(Team* tm) {
    Task* k = tm->tasks.front(); tm->tasks.pop_front(); ++tm->running_tasks;
    Task* save = me->task; me->task = k; join(me->vc, k->vc);
    { bool o = me->inrt; me->inrt = false; k->fn(); me->inrt = o; }
    me->task = save; --tm->running_tasks; release_to(k->parent ? (void*)k->parent : (void*)tm);
    if (k->parent) --k->parent->pending;
}
void barrier() {
    Team* t = me->team; if (!t || t->n == 1) { if (t) while (!t->tasks.empty()) run_one_task(t); return; }
    for (;;) {
        while (!t->tasks.empty()) { run_one_task(t); sync_point(); }
        if (t->arrived + 1 == t->n && t->running_tasks) { block_until([t] { return !t->tasks.empty() || !t->running_tasks; }); continue; }
        break;
    }
    join(t->bvc, me->vc);
    if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; join(me->vc, t->bvc); acquire_of(t); tick(*me); point(); return; }
    long g = t->gen;
    for (;;) {
        block_until([t, g] { return t->gen != g || !t->tasks.empty(); });
        if (t->gen != g) break;
        --t->arrived; while (!t->tasks.empty()) run_one_task(t);
        ++t->arrived; if (t->arrived == t->n) { t->arrived = 0; ++t->gen; break; }
    }
    join(me->vc, t->bvc); acquire_of(t); tick(*me);
}
void parallel(void (*fn)(void*), void* data, unsigned nreq, const std::function<void(Team&)>& setup = {}) {
    Th& s = *me; In in;
    int want = nreq ? (int)nreq : s.icv ? s.icv : cfg.max_threads;
    int n = std::max(1, std::min(want, cfg.deliver));
    if (level_active(s.team) >= cfg.active_levels) n = 1;
    Team team; team.n = n; team.up = s.team; team.up_tnum = s.tnum; team.level = s.team ? s.team->level + 1 : 1;
    if (setup) setup(team);
    Team* up = s.team; int ut = s.tnum, uw = s.ws; Task* utask = s.task;
    std::vector<Th*> m; Task dummy[MAXT];
    if (n > MAXT) stop(4, "team too large");
    for (int i = 1; i < n; ++i) {
        Task* imp = &dummy[i];
        Th& t = start([fn, data, &team, imp] { me->inrt = false; me->task = imp; fn(data); In in; while (!team.tasks.empty()) run_one_task(&team); ++team.finished; });
        t.team = &team; t.tnum = i; m.push_back(&t);
    }
    s.team = &team; s.tnum = 0; s.ws = 0; s.task = &dummy[0];
    { s.inrt = false; fn(data); s.inrt = true; }
    while (!team.tasks.empty()) run_one_task(&team);
    block_until([&] { for (Th* t: m) if (!t->done) return false; return true; });
    for (Th* t: m) { join(s.vc, t->vc); s.pool.push_back(t->id); for (int i: t->pool) s.pool.push_back(i); t->pool.clear(); }
    acquire_of(&team); syncs->erase(&team);
    std::sort(s.pool.rbegin(), s.pool.rend());
    s.team = up; s.tnum = ut; s.ws = uw; s.task = utask; tick(s);
}
// work sharing: the k-th construct of every thread of the team is the same one
Loop& loop_begin(int& key, unsigned long long b, unsigned long long e, unsigned long long incr, unsigned long long chunk, bool up) {
    static Loop none[MAXT]; Team* t = me->team; key = me->ws++;
    Loop* l; if (!t) { l = &none[me->id]; *l = Loop(); } else l = &t->loops[key];
    if (!l->init) { l->init = true; l->next = b; l->end = e; l->incr = incr; l->chunk = chunk ? chunk : 1; l->up = up; l->left = t ? t->n : 1; }
    return *l;
}
}  // namespace

// single-thread fallback state for work sharing outside any parallel region
static Loop& solo() { static thread_local Loop l; return l; }
static bool loop_next_(unsigned long long* is, unsigned long long* ie, bool sgn) {
    In in; sync_point();
    Loop& l = me->team ? me->team->loops[me->ws - 1] : solo();
    if (me->team) { acquire_of(&l); release_to(&l); }
    long long inc = (long long)l.incr;
    if (sgn || true) {
        bool more = l.up ? (sgn ? (long long)l.next < (long long)l.end : l.next < l.end) : (sgn ? (long long)l.next > (long long)l.end : l.next > l.end);
        if (!more) return false;
        *is = l.next; unsigned long long nx = l.next + (unsigned long long)(inc * (long long)l.chunk);
        bool past = l.up ? (sgn ? (long long)nx > (long long)l.end : (nx > l.end || nx < l.next)) : (sgn ? (long long)nx < (long long)l.end : (nx < l.end || nx > l.next));
        if (past) nx = l.end;
        *ie = nx; l.next = nx; return true;
    }
}
static bool loop_start_(unsigned long long b, unsigned long long e, unsigned long long incr, unsigned long long chunk, bool up, unsigned long long* is, unsigned long long* ie, bool sgn) {
    { In in; int key; if (me->team) loop_begin(key, b, e, incr, chunk, up); else { me->ws++; Loop& l = solo(); l = Loop(); l.init = true; l.next = b; l.end = e; l.incr = incr; l.chunk = chunk ? chunk : 1; l.up = up; } }
    return loop_next_(is, ie, sgn);
}
extern "C" {
// ---- regions
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { if (!active) { fn(d); return; } parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned f) { GOMP_parallel(fn, d, n, f); return cfg.max_threads; }
static void ploop(void (*fn)(void*), void* d, unsigned n, long b, long e, long inc, long chunk) {
    parallel(fn, d, n, [=](Team& t) { Loop& l = t.loops[-1]; l.init = true; l.next = b; l.end = e; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; l.up = inc > 0; });
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long b, long e, long i, long c, unsigned) { ploop(fn, d, n, b, e, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#undef PLOOP
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long b, long e, long i, unsigned) { ploop(fn, d, n, b, e, i, 1); }
PLOOP(runtime) PLOOP(nonmonotonic_runtime) PLOOP(maybe_nonmonotonic_runtime)
#undef PLOOP
// inside a combined region the loop is number -1: ws is 0 there, so ws - 1 == -1
#define NEXT(name) bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_next_((unsigned long long*)is, (unsigned long long*)ie, true); } \
                   bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_next_(is, ie, false); }
NEXT(static) NEXT(dynamic) NEXT(guided) NEXT(runtime) NEXT(nonmonotonic_dynamic) NEXT(nonmonotonic_guided) NEXT(nonmonotonic_runtime) NEXT(maybe_nonmonotonic_runtime)
NEXT(ordered_static) NEXT(ordered_dynamic) NEXT(ordered_guided) NEXT(ordered_runtime)
#define START(name) bool GOMP_loop_##name##_start(long b, long e, long i, long c, long* is, long* ie) { return loop_start_(b, e, i, c, i > 0, (unsigned long long*)is, (unsigned long long*)ie, true); } \
                    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long b, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start_(b, e, i, c, up, is, ie, false); }
START(static) START(dynamic) START(guided) START(nonmonotonic_dynamic) START(nonmonotonic_guided)
#define START_R(name) bool GOMP_loop_##name##_start(long b, long e, long i, long* is, long* ie) { return loop_start_(b, e, i, 1, i > 0, (unsigned long long*)is, (unsigned long long*)ie, true); } \
                      bool GOMP_loop_ull_##name##_start(bool up, unsigned long long b, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return loop_start_(b, e, i, 1, up, is, ie, false); }
START_R(runtime) START_R(nonmonotonic_runtime) START_R(maybe_nonmonotonic_runtime)
void GOMP_barrier() { if (!active) return; In in; barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_loop_end() { if (!active) return; In in; barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() {}
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() {}
unsigned GOMP_sections_next() { unsigned long long a, b; return loop_next_(&a, &b, false) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { unsigned long long a, b; return loop_start_(1, n + 1ull, 1, 1, true, &a, &b, false) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { ploop(fn, d, n, 1, count + 1, 1, 1); }
static int critical_dummy;
static std::map<const void*, int>* held;      // lock -> owner id + 1
static void lock_(const void* p) { if (!active) return; In in; sync_point(); if (nalive < 2 && !(*held)[p]) { (*held)[p] = me->id + 1; return; } block_until([p] { return (*held)[p] == 0; }); (*held)[p] = me->id + 1; acquire_of(p); }
static void unlock_(const void* p) { if (!active) return; In in; release_to(p); (*held)[p] = 0; sync_point(); }
void GOMP_critical_start() { lock_(&critical_dummy); }
void GOMP_critical_end() { unlock_(&critical_dummy); }
void GOMP_critical_name_start(void** p) { lock_(p); }
void GOMP_critical_name_end(void** p) { unlock_(p); }
void GOMP_atomic_start() { lock_(&critical_dummy); }
void GOMP_atomic_end() { unlock_(&critical_dummy); }
bool GOMP_single_start() {
    if (!active) return true; In in; sync_point(); int k = me->ws++; if (!me->team) return true;
    return me->team->single[k]++ == 0;
}
void* GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; In in; barrier(); return me->team->copyp; }
void GOMP_single_copy_end(void* p) { In in; if (me->team) me->team->copyp = p; barrier(); }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned flags, void** depend, int priority, void* detach) {
    In in; sync_point();
    std::shared_ptr<char> buf((char*)aligned_alloc(std::max<long>(align, 16), (size + 63 + std::max<long>(align, 16)) / std::max<long>(align, 16) * std::max<long>(align, 16)), free);
    if (cpy) { me->inrt = false; cpy(buf.get(), data); me->inrt = true; } else __real_memcpy(buf.get(), data, size);
    if (!if_clause || !me->team || depend) { me->inrt = false; fn(buf.get()); me->inrt = true; return; }
    Task* k = new Task; k->parent = me->task; if (k->parent) ++k->parent->pending; k->vc = me->vc; tick(*me); k->fn = [fn, buf] { fn(buf.get()); };
    me->team->tasks.push_back(k);
}
void GOMP_taskwait() {
    if (!active) return; In in; Team* tm = me->team; Task* t = me->task; if (!tm || !t) return;
    while (t->pending) { if (!tm->tasks.empty()) { run_one_task(tm); sync_point(); } else block_until([t, tm] { return !t->pending || !tm->tasks.empty(); }); }
    acquire_of(t);
}
void GOMP_taskyield() { In in; sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { GOMP_taskwait(); }
static void taskloop_(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, long b, long e, long step) {
    long total = step > 0 ? (e - b + step - 1) / step : (b - e - step - 1) / -step; if (total <= 0) return;
    long nt = num ? (flags & 0x200 ? std::max<long>(1, total / (long)num) : (long)num) : std::max(1, me->team ? me->team->n : 1); nt = std::min(nt, total);
    std::vector<char> d((char*)data, (char*)data + size);
    for (long k = 0; k < nt; ++k) { long lo = b + step * (total * k / nt), hi = b + step * (total * (k + 1) / nt); ((long*)d.data())[0] = lo; ((long*)d.data())[1] = hi; GOMP_task(fn, d.data(), cpy, size, align, true, 0, nullptr, 0, nullptr); }
    if (!(flags & (1u << 11))) GOMP_taskwait();
}
void GOMP_taskloop(void (*fn)(void*), void* d, void (*c)(void*, void*), long s, long a, unsigned f, unsigned long n, int, long b, long e, long st) { taskloop_(fn, d, c, s, a, f, n, b, e, st); }
void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*c)(void*, void*), long s, long a, unsigned f, unsigned long n, int, unsigned long long b, unsigned long long e, unsigned long long st) { taskloop_(fn, d, c, s, a, f, n, b, e, st); }
// the general work-sharing entry points
bool GOMP_loop_start(long b, long e, long i, long sched, long c, long* is, long* ie, uintptr_t* red, void** mem) { if (mem) *mem = calloc(1, (size_t)*mem); return is ? loop_start_(b, e, i, c, i > 0, (unsigned long long*)is, (unsigned long long*)ie, true) : true; }
// offloading falls back to the host
void GOMP_target_ext(int, void (*fn)(void*), size_t, void** addrs, size_t*, unsigned short*, unsigned, void**, void**) { fn(addrs); }
bool GOMP_teams4(unsigned, unsigned, unsigned, bool first) { return first; }
void GOMP_teams_reg(void (*fn)(void*), void* d, unsigned, unsigned, unsigned) { fn(d); }
int omp_get_team_num() { return 0; } int omp_get_num_teams() { return 1; } int omp_is_initial_device() { return 1; } int omp_get_num_devices() { return 0; }

int omp_get_thread_num() { return active && me ? me->tnum : 0; }
int omp_get_num_threads() { return active && me && me->team ? me->team->n : 1; }
int omp_get_max_threads() { return active ? (me && me->icv ? me->icv : cfg.max_threads) : 1; }
void omp_set_num_threads(int n) { if (active && me) me->icv = n; }
int omp_get_num_procs() { return cfg.max_threads; }
int omp_get_thread_limit() { return INT_MAX; }
int omp_in_parallel() { return active && me && level_active(me->team) > 0; }
int omp_get_level() { int k = 0; if (active && me) for (Team* t = me->team; t; t = t->up) ++k; return k; }
int omp_get_active_level() { return active && me ? level_active(me->team) : 0; }
int omp_get_ancestor_thread_num(int l) { if (!active || !me) return l ? -1 : 0; int k = omp_get_level(); if (l > k || l < 0) return -1; int r = me->tnum; for (Team* t = me->team; k > l; --k) { r = t->up_tnum; t = t->up; } return r; }
int omp_get_team_size(int l) { if (!active || !me) return 1; int k = omp_get_level(); if (l > k || l < 0) return -1; Team* t = me->team; for (; k > l && t; --k) t = t->up; return t ? t->n : 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
void omp_set_nested(int v) { cfg.active_levels = v ? INT_MAX : 1; } int omp_get_nested() { return cfg.active_levels > 1; }
void omp_set_max_active_levels(int v) { cfg.active_levels = v; } int omp_get_max_active_levels() { return cfg.active_levels; }
void omp_set_schedule(int, int) {} void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { lock_(p); } void omp_unset_lock(void* p) { unlock_(p); }
int omp_test_lock(void* p) { In in; sync_point(); if ((*held)[p]) return 0; (*held)[p] = me->id + 1; acquire_of(p); return 1; }

// ---- pthread primitives: those of the library and the harness are controlled, those inside BLAS and LAPACK (trusted) are not
static uintptr_t ext_lo[16], ext_hi[16]; static int ext_n = -1;
static int ext_scan(struct dl_phdr_info* i, size_t, void*) {
    if (!strstr(i->dlpi_name, "blas") && !strstr(i->dlpi_name, "lapack") && !strstr(i->dlpi_name, "gfortran") && !strstr(i->dlpi_name, "gomp") && !strstr(i->dlpi_name, "libgcc")) return 0;
    uintptr_t lo = ~uintptr_t(0), hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) { lo = std::min(lo, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr)); hi = std::max(hi, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz)); }
    if (ext_n < 16) { ext_lo[ext_n] = lo; ext_hi[ext_n++] = hi; }
    return 0;
}
static bool external(const void* ra) { if (ext_n < 0) { ext_n = 0; dl_iterate_phdr(ext_scan, nullptr); } for (int i = 0; i < ext_n; ++i) if ((uintptr_t)ra >= ext_lo[i] && (uintptr_t)ra < ext_hi[i]) return true; return false; }
#define TRUSTED external(__builtin_return_address(0))
// ---- used by std::mutex, std::thread, std::call_once, std::condition_variable
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!active || !me || me->inrt || TRUSTED) { if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return real(m); }
    lock_(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!active || !me || me->inrt || TRUSTED) { if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return real(m); }
    unlock_(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!active || !me || me->inrt || TRUSTED) { if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return real(m); }
    In in; sync_point(); if ((*held)[m]) return EBUSY; (*held)[m] = me->id + 1; acquire_of(m); return 0;
}
struct CondQ { std::deque<int> w; std::map<int, bool> go; };
static std::map<const void*, CondQ>* conds;
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active || !me) return 0;
    { In in; CondQ& q = (*conds)[c]; int id = me->id; q.w.push_back(id); q.go[id] = false; release_to(m); (*held)[m] = 0; shm->sync_used = 1; block_until([&q, id] { return q.go[id]; }); acquire_of(c); }
    lock_(m); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if (!active || !me) return 0; In in; release_to(c); CondQ& q = (*conds)[c]; if (!q.w.empty()) { q.go[q.w.front()] = true; q.w.pop_front(); } sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!active || !me) return 0; In in; release_to(c); CondQ& q = (*conds)[c]; for (int i: q.w) q.go[i] = true; q.w.clear(); sync_point(); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!active || !me || me->inrt || TRUSTED) { static int (*real)(pthread_once_t*, void (*)()) = nullptr; if (!real) real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once"); return real(o, fn); }
    int* s = (int*)o; { In in; sync_point(); block_until([s] { return *s != 1; }); if (*s == 2) { acquire_of(o); return 0; } *s = 1; }
    fn(); In in; release_to(o); *s = 2; return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    if (!active || !me || me->inrt) return real_create(h, a, fn, arg);
    In in; Th& t = start([fn, arg] { me->inrt = false; me->ret = fn(arg); }); *h = (pthread_t)(1000 + t.id); point(); return 0;
}
int pthread_join(pthread_t h, void** r) {
    if (!active || !me || h >= 1000 + MAXT || h < 1000) { static int (*real)(pthread_t, void**) = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"); return real(h, r); }
    In in; Th& t = th[h - 1000]; block_until([&t] { return t.done; }); join(me->vc, t.vc); tick(*me); if (r) *r = t.ret; me->pool.push_back(t.id); for (int i: t.pool) me->pool.push_back(i); t.pool.clear(); return 0;
}
int pthread_detach(pthread_t h) { if (!active || !me || h >= 1000 + MAXT || h < 1000) { static int (*real)(pthread_t) = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return real(h); } return 0; }
int sched_yield() { if (active && me && !me->inrt && nalive > 1 && !TRUSTED) { In in; shm->sync_used = 1; reschedule(true); } return 0; }
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
// function-static initialisation
int __cxa_guard_acquire(long long* g) {
    auto* b = (unsigned char*)g;
    if (!active || !me) { if (b[0]) return 0; b[1] = 1; return 1; }
    In in; sync_point(); block_until([b] { return b[0] || !b[1]; }); if (b[0]) { acquire_of(g); return 0; } b[1] = 1; return 1;
}
void __cxa_guard_release(long long* g) { auto* b = (unsigned char*)g; if (active && me) { In in; release_to(g); b[0] = 1; b[1] = 0; sync_point(); } else { b[0] = 1; b[1] = 0; } }
void __cxa_guard_abort(long long* g) { ((unsigned char*)g)[1] = 0; }

// ---- instrumentation hooks
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
              void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
              void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
              void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { access(p, n, false); }
void __tsan_write_range(void* p, long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
static void apoint(const void* p) {
    if (!active || !me || nalive < 2 || me->inrt) return;
    In in; shm->sync_used = 1;
    reschedule(++me->spins > 500); if (me->spins > 500) me->spins = 0;
    acquire_of(p); release_to(p);
}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { apoint((const void*)p); return __atomic_load_n(p, 5); } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { apoint((const void*)p); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { apoint((const void*)p); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { apoint((const void*)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { apoint((const void*)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { apoint((const void*)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active && n) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active && n) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active && n) access(d, n, true); return __real_memset(d, c, n); }
}

namespace sched {
static void on_crash(int s) { char b[80]; snprintf(b, sizeof b, "killed by signal %d", s); shm->status = 1; snprintf(shm->msg, sizeof shm->msg, "%s", b); _exit(0); }
static void child(const std::function<void(Sink&)>& body) {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    struct rlimit rl{60, 65}; setrlimit(RLIMIT_CPU, &rl); sa.sa_handler = [](int) { shm->status = 3; snprintf(shm->msg, sizeof shm->msg, "does not terminate"); _exit(0); }; sigaction(SIGXCPU, &sa, nullptr);
    if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    (void)dlsym(RTLD_NEXT, "pthread_join"); (void)external(nullptr);
    syncs = new std::map<const void*, VC>; held = new std::map<const void*, int>; conds = new std::map<const void*, CondQ>;
    cells = (Cell*)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Th& m = th[0]; m.id = 0; m.done = false; m.alive = true; m.vc = {1}; nthreads = nalive = 1; cur = 0; me = &m; m.os = true;
    Sink sink; sink.reserve(4096);
    active = true;
    bool threw = false; std::string what;
    try { body(sink); } catch (const std::exception& e) { threw = true; what = e.what(); } catch (...) { threw = true; what = "?"; }
    active = false;
    if (threw) { shm->status = 6; snprintf(shm->msg, sizeof shm->msg, "exception: %s", what.c_str()); _exit(0); }
    shm->nvals = (int)std::min<size_t>(sink.size(), MAXVAL);
    for (int i = 0; i < shm->nvals; ++i) shm->vals[i] = sink[i];
    shm->status = 0;
    _exit(0);
}
static Outcome execute(const Config& c, const std::function<void(Sink&)>& body, const std::vector<unsigned char>& prefix) {
    if (!shm) shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cfg = c;
    shm->prefix_n = (int)prefix.size(); for (size_t i = 0; i < prefix.size(); ++i) shm->prefix[i] = prefix[i];
    shm->ndec = shm->truncated = shm->sync_used = shm->nconf = shm->nvals = shm->threads = 0; shm->points = shm->accesses = 0; shm->status = -1; shm->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) child(body);
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.status = shm->status; o.msg = shm->msg;
    if (shm->status == -1) { o.status = 1; o.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "the process exited"; }
    if (o.status == 5) { fprintf(stderr, "omprt: schedule replay diverged\n"); _exit(97); }
    if (o.status == 4) { fprintf(stderr, "omprt: %s\n", shm->msg); _exit(97); }
    o.vals.assign(shm->vals, shm->vals + shm->nvals);
    for (int i = 0; i < shm->ndec; ++i) o.decisions.push_back(shm->chosen[i]);
    return o;
}
Outcome once(const Config& c, const std::function<void(Sink&)>& body) { known.clear(); return execute(c, body, {}); }

Stats explore(const Config& c, const std::function<void(Sink&)>& body, const std::function<void(const Outcome&)>& judge) {
    Stats s; known.clear();
    for (int bound = 0; bound <= c.bound; ++bound) {                    // fewest preemptions (delays) first
        std::vector<unsigned char> prefix; bool more = false;           // more: the bound cut something off
        for (;;) {
            Outcome o = execute(c, body, prefix);
            ++s.schedules; s.points += shm->points; s.accesses += shm->accesses; s.threads = std::max<uint64_t>(s.threads, shm->threads); if (shm->truncated) s.capped = true;
            judge(o);
            if (shm->nconf && s.restarts < 40) {
                s.conflicts += shm->nconf; for (int i = 0; i < shm->nconf; ++i) known.add(shm->conf[i]);
                ++s.restarts; prefix.clear(); continue;
            }
            if (shm->nconf) s.capped = true;
            if (known.s.empty() && !shm->sync_used) return s;           // nothing conflicts: every interleaving is equivalent to this one
            // the next schedule within the bound
            int n = shm->ndec; std::vector<int> cost(n + 1, 0);
            auto price = [&](int i, int ch) { return c.delays ? ch : (shm->cur_on[i] ? (ch ? 1 : 0) : 0); };
            for (int i = 0; i < n; ++i) cost[i + 1] = cost[i] + price(i, shm->chosen[i]);
            int i = n - 1;
            for (; i >= 0; --i) if (shm->chosen[i] + 1 < shm->nch[i]) { if (cost[i] + price(i, shm->chosen[i] + 1) <= bound) break; more = true; }
            if (i < 0) break;
            prefix.assign(shm->chosen, shm->chosen + i); prefix.push_back(shm->chosen[i] + 1);
            if ((int)s.schedules >= c.max_schedules) { s.capped = true; return s; }
        }
        if (!more) break;
    }
    return s;
}
}
