// Scheduler: real OS threads released one at a time; own OpenMP runtime; own ThreadSanitizer
// runtime (yield points, happens-before race detector, heap bounds).
#include "internal.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <unordered_map>
#include <climits>
#include <array>
#include <cerrno>
#include <algorithm>

namespace sim {

enum { ST_FREE, ST_RUN, ST_BLOCKED };
static Thr T[MAXT];
Thr *cur;
uint64_t g_step;
static uint64_t g_next = ~0ull;         // step of the next possible preemption
static int g_nrun;                      // runnable threads
static int g_active;                    // live threads (not free)
static Rng g_srng(1);
static int g_mode;                      // 0 run 1 rand 2 pct 3 rr 4 list
static double g_p; static uint64_t g_q;
static size_t g_swi; static std::vector<Switch> *g_list;
static std::vector<uint64_t> *g_pctpts; static size_t g_pcti; static uint64_t g_lowprio;
uint64_t g_maxsteps = 150000000ull;            // default step limit
static uint64_t g_steplimit;
static int g_stackfill;

static void fwait(int *f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

HarnessScope::HarnessScope() { o = cur ? cur->sut : 0; if (cur) cur->sut = 0; }
HarnessScope::~HarnessScope() { if (cur) cur->sut = o; }
// What the harness left on the stack must not reach the library: a read of an uninitialised local
// would otherwise depend on the harness, and not repeat. The pattern is part of the plan.
static __attribute__((noinline, no_sanitize("address"))) void wipe_stack() {
    volatile uint64_t b[2048]; uint64_t w = g_stackfill == 1 ? ~0ull : g_stackfill == 2 ? 0xa5a5a5a5a5a5a5a5ull : g_stackfill == 3 ? 0x447a0000447a0000ull : 0;
    for (int i = 0; i < 2048; i++) b[i] = w;
}
int sut_enter() { int o = cur ? cur->sut : 0; if (cur) { if (!o && cur->f) wipe_stack(); cur->sut = 1; } return o; }
void sut_leave(int o) { if (cur) cur->sut = o; }
int cur_tid() { return cur ? cur->id : -1; }
int live_threads() { return g_active; }

// ---------------------------------------------------------------- choosing
static void plan_next() {               // when may the next preemption happen?
    switch (g_mode) {
    case 1: { double u = g_srng.unit(); double k = __builtin_log(1 - u) / __builtin_log(1 - g_p); g_next = g_step + 1 + (uint64_t)(k < 1e9 ? k : 1e9); break; }
    case 2: g_next = g_pcti < g_pctpts->size() ? std::max((*g_pctpts)[g_pcti], g_step + 1) : ~0ull; break;
    case 3: g_next = g_step + g_q; break;
    case 4: { while (g_swi < g_list->size() && (*g_list)[g_swi].step <= g_step) g_swi++;
              g_next = g_swi < g_list->size() ? (*g_list)[g_swi].step : ~0ull; break; }
    default: g_next = ~0ull;
    }
    g_next = std::min(g_next, g_steplimit + 1);
}
static Thr *nth_runnable(uint64_t k, Thr *except) {
    for (int i = 0; i < MAXT; i++) if (T[i].st == ST_RUN && &T[i] != except) { if (k == 0) return &T[i]; k--; }
    return nullptr;
}
static Thr *rr_next(Thr *me) { for (int d = 1; d <= MAXT; d++) { Thr *t = &T[(me->id + d) % MAXT]; if (t->st == ST_RUN && t != me) return t; } return nullptr; }
static Thr *best_prio(Thr *except) { Thr *b = nullptr; for (int i = 0; i < MAXT; i++) if (T[i].st == ST_RUN && &T[i] != except && (!b || T[i].prio > b->prio)) b = &T[i]; return b; }

static void record(int tid) {
    auto &r = S->res;
    if (r.nrec < (uint64_t)MAXSW) S->sw[r.nrec++] = Switch{(uint32_t)r.incarnation, g_step, tid}; else r.overflow = 1;
}
static void switch_to(Thr *n) {
    Thr *me = cur; if (n == me) return;
    S->res.nswitch++;
    S->res.sched_hash = mix(S->res.sched_hash ^ (uint64_t)(me->id * 64 + n->id), me->lstep);
    S->res.hash = mix(S->res.hash ^ (uint64_t)(n->id + 1000), g_step);
    cur = n; fwake(&n->futex); fwait(&me->futex);
}
static void preempt() {                 // cur is runnable and a preemption point is due
    Thr *n = nullptr;
    switch (g_mode) {
    case 1: n = g_nrun > 1 ? nth_runnable(g_srng.below(g_nrun - 1), cur) : nullptr; break;
    case 2: if (g_pcti < g_pctpts->size() && (*g_pctpts)[g_pcti] <= g_step) { g_pcti++; cur->prio = g_lowprio--; }
            n = best_prio(nullptr); if (n == cur) n = nullptr; break;
    case 3: n = g_nrun > 1 ? rr_next(cur) : nullptr; break;
    case 4: if (g_swi < g_list->size() && (*g_list)[g_swi].step == g_step) { int t = (*g_list)[g_swi].tid; g_swi++;
                if (t >= 0 && t < MAXT && T[t].st == ST_RUN && &T[t] != cur) n = &T[t]; } break;
    }
    plan_next();
    if (n) { record(n->id); switch_to(n); }
}
static inline void step() {
    cur->lstep++;
    if (__builtin_expect(++g_step >= g_next, 0)) {
        if (g_step > g_steplimit) violation("hang", "more than %llu steps", (unsigned long long)g_steplimit);
        preempt();
    }
}
void yield_point(const char *) { if (g_on && cur) { S->res.yields++; step(); } }

static void became_runnable(Thr *t) { t->st = ST_RUN; g_nrun++;
    if (g_mode == 2 && cur && t->prio > cur->prio) g_next = g_step + 1; }

static void block(const void *on) {     // current thread waits; returns when it has been made runnable and chosen
    cur->st = ST_BLOCKED; cur->waiting = on; g_nrun--;
    ++g_step;
    Thr *d = rr_next(cur), *n = d;
    if (!d) violation("deadlock", "every simulated thread is blocked");
    switch (g_mode) {
    case 1: n = nth_runnable(g_srng.below(g_nrun), cur); break;
    case 2: n = best_prio(cur); break;
    case 4: if (g_swi < g_list->size() && (*g_list)[g_swi].step <= g_step) {
                if ((*g_list)[g_swi].step == g_step) { int t = (*g_list)[g_swi].tid; if (t >= 0 && t < MAXT && T[t].st == ST_RUN && &T[t] != cur) n = &T[t]; }
                plan_next(); } break;
    }
    if (g_mode == 1 || g_mode == 3) plan_next();
    if (n != d) record(n->id);
    switch_to(n);
}
static void wake_all(const void *on) { for (int i = 0; i < MAXT; i++) if (T[i].st == ST_BLOCKED && T[i].waiting == on) { T[i].waiting = nullptr; became_runnable(&T[i]); } }

// ---------------------------------------------------------------- vector clocks
struct VC { uint64_t c[MAXT]; VC() { memset(c, 0, sizeof c); } };
static void vjoin(uint64_t *a, const uint64_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static std::unordered_map<uintptr_t, VC> *g_sync;
static void acq(const void *o) { HarnessScope h; vjoin(cur->vc, (*g_sync)[(uintptr_t)o].c); }
static void rel(const void *o) { HarnessScope h; vjoin((*g_sync)[(uintptr_t)o].c, cur->vc); cur->vc[cur->id]++; }
void acquire_all() { for (int i = 0; i < MAXT; i++) vjoin(cur->vc, T[i].vc); }

// ---------------------------------------------------------------- threads
static void *thr_main(void *a) {
    Thr *t = (Thr *)a;
    extern void set_altstack(); set_altstack();
    // fresh stacks hold junk, not zeros
    if (g_stackfill) { volatile char *lo = (volatile char *)(STACK_BASE + t->id * STACK_SLOT + STACK_SLOT / 2); size_t n = 160 << 10;
        char *top = (char *)__builtin_frame_address(0) - 4096; char *b = top - n; if (b > (char *)lo) {
            uint32_t w = g_stackfill == 1 ? 0xffffffffu : g_stackfill == 2 ? 0xa5a5a5a5u : 0x447a0000u;
            for (char *p = (char *)((uintptr_t)b & ~3ull); p < top; p += 4) *(volatile uint32_t *)p = w; } }
    t->created = 2; fwake((int *)&t->pth);      // handshake
    for (;;) {
        fwait(&t->futex);
        t->sut = t->isomp;
        if (t->f) (*t->f)(); else { t->fn(t->arg); extern void task_end_of_member(Thr *); task_end_of_member(t); }
        t->sut = 0;
        // done: hand over
        void *w = t->team ? (void *)t->team : (void *)t;
        extern void thr_finished(Thr *); thr_finished(t);
        (void)w;
    }
    return nullptr;
}
static Thr *get_thread() {
    Thr *t = nullptr;
    for (int i = 1; i < MAXT; i++) if (T[i].st == ST_FREE) { t = &T[i]; break; }
    if (!t) harness_error("out of simulated threads");
    if (!t->created) {
        HarnessScope hs;
        t->id = (int)(t - T); t->created = 1; t->pth = 0;
        pthread_attr_t at; pthread_attr_init(&at);
        char *slot = (char *)(STACK_BASE + t->id * STACK_SLOT);
        mprotect(slot, 65536, PROT_NONE);
        pthread_attr_setstack(&at, slot + 65536, STACK_SLOT - 65536);
        pthread_t th; int e = pthread_create(&th, &at, thr_main, t);
        if (e) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
        fwait((int *)&t->pth);
    }
    t->prio = 1000 + g_srng.below(1000000); t->waiting = nullptr; t->wsno = 0; t->f = nullptr; t->team = nullptr; t->joinable = 0; t->task = nullptr; t->kids0 = 0; t->ordwork = nullptr;
    g_active++;
    if ((uint64_t)g_active > S->res.threads_max) S->res.threads_max = g_active;
    return t;
}
static int g_joinwait; static VC *g_joinvc; static int g_spawned;

struct Work { uint64_t no; int inited; long next, end, incr, chunk; int sched; unsigned sec_next, sec_n; int left; void *copy; uint64_t ordgiven, ordturn; };
struct Task { void (*fn)(void *); char *buf, *arg; Task *parent; int kids; uint64_t vc[MAXT]; VC kidvc; int refs; };
struct Team { int n, done; Thr *master; Team *up; int uptnum; unsigned upws; int bar; uint64_t bargen; Work ws[32]; VC jvc; VC barvc; int level; std::vector<Task *> *q; int running, pending; VC taskvc; uint64_t ntask; };

void thr_finished(Thr *t) {
    if (t->team) { Team *tm = t->team; vjoin(tm->jvc.c, t->vc); tm->done++; if (tm->done == tm->n - 1) wake_all(tm); }
    else { vjoin(g_joinvc->c, t->vc); g_spawned--; if (!g_spawned) wake_all(&g_joinwait); }
    t->vc[t->id]++;
    ev("thread end", t->id);
    // becomes free; somebody else runs
    cur->st = ST_BLOCKED; g_nrun--; g_active--; ++g_step;
    Thr *d = rr_next(cur), *n = d;
    if (!d) violation("deadlock", "every simulated thread is blocked");
    switch (g_mode) {
    case 1: n = nth_runnable(g_srng.below(g_nrun), cur); break;
    case 2: n = best_prio(cur); break;
    case 4: if (g_swi < g_list->size() && (*g_list)[g_swi].step <= g_step) {
                if ((*g_list)[g_swi].step == g_step) { int x = (*g_list)[g_swi].tid; if (x >= 0 && x < MAXT && T[x].st == ST_RUN && &T[x] != cur) n = &T[x]; }
                plan_next(); } break;
    }
    if (g_mode == 1 || g_mode == 3) plan_next();
    if (n != d) record(n->id);
    Thr *me = cur; me->st = ST_FREE; me->team = nullptr;
    if (me->f && me->joinable) { delete me->f; } me->f = nullptr;
    S->res.nswitch++;
    S->res.sched_hash = mix(S->res.sched_hash ^ (uint64_t)(me->id * 64 + n->id), me->lstep);
    S->res.hash = mix(S->res.hash ^ (uint64_t)(n->id + 1000), g_step);
    cur = n; fwake(&n->futex);          // me returns to its loop and parks
}

int spawn(std::function<void()> f, const char *) {
    Thr *t = get_thread();
    t->f = new std::function<void()>(std::move(f)); t->isomp = 0; t->joinable = 1;
    vjoin(t->vc, cur->vc); t->vc[t->id]++; cur->vc[cur->id]++;
    g_spawned++;
    became_runnable(t);
    ev("spawn", t->id);
    yield_point("spawn");
    return t->id;
}
void join_all() { while (g_spawned) block(&g_joinwait); vjoin(cur->vc, g_joinvc->c); }

void sched_init() {
    g_sync = new std::unordered_map<uintptr_t, VC>; g_joinvc = new VC; g_list = new std::vector<Switch>; g_pctpts = new std::vector<uint64_t>;
    g_srng = Rng(mix(P->schedseed, S->res.incarnation));
    g_stackfill = (int)P->get("fill", 0);
    g_steplimit = P->get("steplimit", g_maxsteps * P->get("slow", 1));
    if (P->sched == "rand") { g_mode = 1; g_p = 1.0 / (double)(P->schedarg > 1 ? P->schedarg : 2); }
    else if (P->sched == "pct") { g_mode = 2; int d = (int)P->get("pct_d", 3); uint64_t len = P->schedarg > 10 ? P->schedarg : 10;
        for (int i = 0; i < d; i++) g_pctpts->push_back(1 + g_srng.below(len)); std::sort(g_pctpts->begin(), g_pctpts->end()); g_lowprio = 900; }
    else if (P->sched == "rr") { g_mode = 3; g_q = P->schedarg > 0 ? P->schedarg : 1; }
    else if (P->sched == "list") { g_mode = 4; for (auto &s : P->sw) if ((int)s.inc == S->res.incarnation) g_list->push_back(s); }
    else g_mode = 0;
    plan_next();
}
static std::function<void()> *g_main; static int g_maindone;
void run_main(std::function<void()> f) {
    // thread 0 gets a simulated stack too
    Thr *t = &T[0]; t->id = 0; t->created = 1; t->isomp = 0;
    g_main = new std::function<void()>([f] { f(); fflush(nullptr); finish_ok(); });
    t->f = g_main; t->st = ST_RUN; g_nrun = 1; g_active = 1; t->prio = 1000000; t->vc[0] = 1;
    pthread_attr_t at; pthread_attr_init(&at);
    char *slot = (char *)STACK_BASE; mprotect(slot, 65536, PROT_NONE);
    pthread_attr_setstack(&at, slot + 65536, STACK_SLOT - 65536);
    pthread_t th; if (pthread_create(&th, &at, thr_main, t)) { fprintf(stderr, "pthread_create failed\n"); _exit(99); }
    fwait((int *)&t->pth);
    cur = t; fwake(&t->futex);
    fwait(&g_maindone);                 // never: the run ends in _exit
}

// ---------------------------------------------------------------- race detector
// 8-byte granules, 4 slots each; slot = tid(8) | clock(40) | mask(8) | write(1)<<0 ... packed below
static inline uint64_t mkslot(int tid, uint64_t clk, uint8_t mask, bool w) { return ((uint64_t)(tid + 1) << 56) | ((clk & 0x7fffffffffull) << 17) | ((uint64_t)mask << 1) | (w ? 1 : 0); }
static std::unordered_map<uintptr_t, std::array<uint64_t, 4>> *g_gsh;
static inline uint64_t *cell(uintptr_t g) {
    if (g >= ARENA_BASE && g < STACK_BASE + STACK_TOTAL) return (uint64_t *)(RSHADOW_BASE + (g - ARENA_BASE) * 4);
    HarnessScope h;
    if (!g_gsh) g_gsh = new std::unordered_map<uintptr_t, std::array<uint64_t, 4>>;
    return (*g_gsh)[g].data();
}
static void race_granule(uintptr_t g, uint8_t mask, bool w, uintptr_t pc) {
    uint64_t *c = cell(g);
    uint64_t mine = mkslot(cur->id, cur->vc[cur->id], mask, w);
    int put = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t s = c[i];
        if (!s) { if (put < 0) put = i; continue; }
        int tid = (int)(s >> 56) - 1; uint64_t clk = (s >> 17) & 0x7fffffffffull; uint8_t m = (uint8_t)(s >> 1); bool sw = s & 1;
        if (tid == cur->id) { if ((m & mask) == m && (w || !sw)) put = i; continue; }
        bool hb = cur->vc[tid] >= clk;
        if (!hb && (m & mask) && (w || sw)) {
            S->res.pc1 = pc; S->res.pc2 = 0;
            violation("race", "data race: %s by thread %d conflicts with an unordered %s by thread %d (%s memory)", w ? "write" : "read", cur->id, sw ? "write" : "read", tid,
                      in_arena((void *)g) ? "heap" : g >= STACK_BASE && g < STACK_BASE + STACK_TOTAL ? "stack" : "static");
        }
        if (hb && ((m & mask) == m) && put < 0) put = i;
    }
    if (put < 0) put = (int)((g >> 3) + cur->lstep) & 3;
    c[put] = mine;
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!g_on || !cur) return;
    step();
    if (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE) arena_check_access(a, n, w, pc);
    if (g_active > 1) {
        S->res.races_checked++;
        while (n) { unsigned off = a & 7, k = 8 - off; if (k > n) k = n; race_granule(a - off, (uint8_t)(((1u << k) - 1) << off), w, pc); a += k; n -= k; }
    }
}
void mark_clean(const void *p, size_t n) {
    if (g_active <= 1) return;
    uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
    for (; a < e; a += 8) memset((void *)(RSHADOW_BASE + (a - ARENA_BASE) * 4), 0, 32);
}
void race_free(void *p) { (void)p; }
static void harness_access(const void *p, size_t n, bool w) { if (g_on && cur && g_active > 1) { uintptr_t a = (uintptr_t)p; while (n) { unsigned off = a & 7, k = 8 - off; if (k > n) k = n; race_granule(a - off, (uint8_t)(((1u << k) - 1) << off), w, 0); a += k; n -= k; } } }
void harness_read(const void *p, size_t n) { harness_access(p, n, false); }
void harness_write(const void *p, size_t n) { harness_access(p, n, true); }

// ---------------------------------------------------------------- OpenMP
static int team_size(unsigned req) {
    if (cur->team) return 1;                         // nested parallelism is off by default
    int n = req ? (int)req : (int)P->get("team", 4);
    if (P->get("teamdyn", 0)) { int m = (int)(mix(P->schedseed + S->res.teams, 99) % n) + 1; n = m; }
    int fr = 1; for (int i = 1; i < MAXT; i++) fr += T[i].st == ST_FREE;      // no more than the system can start
    if (n > fr - 4) n = fr - 4;
    if (n < 1) n = 1;
    return n;
}
static int g_omp_req;
// ---- explicit tasks: queued in the team; taken by whoever waits at a barrier, at the end of the region or in taskwait
static void barrier();
static void task_release(Task *t) { if (--t->refs == 0) { HarnessScope h; free(t->buf); delete t; } }
static bool task_run_one(Team *tm, Task *only_kids_of, bool newest) {
    if (!tm->q || tm->q->empty()) return false;
    size_t k = tm->q->size(); Task *t = nullptr; size_t at = 0;
    for (size_t j = 0; j < k; j++) { size_t i = newest ? k - 1 - j : j; if (!only_kids_of || (*tm->q)[i]->parent == only_kids_of) { t = (*tm->q)[i]; at = i; break; } }
    if (!t) return false;
    { HarnessScope h; tm->q->erase(tm->q->begin() + at); }
    tm->running++; Thr *me = cur; Task *up = (Task *)me->task; me->task = t; vjoin(me->vc, t->vc);
    PROBE("deferred task run"); ev("task", tm->ntask);
    step();
    t->fn(t->arg);
    step();
    me->task = up; tm->running--; tm->pending--;
    vjoin(tm->taskvc.c, me->vc); if (t->parent) { vjoin(t->parent->kidvc.c, me->vc); t->parent->kids--; } me->vc[me->id]++;
    if (t->parent) { wake_all(t->parent); task_release(t->parent); }
    else wake_all(&tm->q);
    task_release(t);
    wake_all(&tm->bar); wake_all(&tm->pending);
    return true;
}
static bool g_newest() { return P->schedseed & 1; }
void task_end_of_member(Thr *t) { Team *tm = t->team; if (!tm) return; while (tm->q && tm->pending && task_run_one(tm, nullptr, g_newest())) ; if (t->tnum && tm->q && tm->pending) while (tm->pending) { if (!task_run_one(tm, nullptr, g_newest())) block(&tm->pending); } }
static void task_end_of_region(Team *tm) { while (tm->pending) if (!task_run_one(tm, nullptr, g_newest())) block(&tm->pending); }
static void task_new(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool now) {
    Team *tm = cur->team; step();
    if (al < 1) al = 1;
    bool defer = tm && tm->n > 1 && !now && (mix(P->schedseed + tm->ntask++, 31) & 3) != 0;
    if (!defer) {
        if (cpy) { char buf[sz + al]; char *a = (char *)(((uintptr_t)buf + al - 1) / al * al); cpy(a, d); fn(a); } else fn(d);
        return;
    }
    Task *t; { HarnessScope h; t = new Task(); t->buf = (char *)malloc(sz + al); if (!tm->q) tm->q = new std::vector<Task *>; }
    t->arg = (char *)(((uintptr_t)t->buf + al - 1) / al * al); t->fn = fn;
    if (cpy) cpy(t->arg, d); else memcpy(t->arg, d, sz);
    t->parent = (Task *)cur->task; t->refs = 1; if (t->parent) { t->parent->refs++; t->parent->kids++; }
    else cur->kids0++;
    memcpy(t->vc, cur->vc, sizeof t->vc); cur->vc[cur->id]++;
    t->kids = 0;
    { HarnessScope h; tm->q->push_back(t); } tm->pending++;
    wake_all(&tm->bar); wake_all(&tm->pending); step();
}
static void task_wait() {
    Team *tm = cur->team; step(); if (!tm || !tm->q) return;
    Task *me = (Task *)cur->task;
    if (me) { while (me->kids) if (!task_run_one(tm, me, g_newest())) block(me); vjoin(cur->vc, me->kidvc.c); }
    else { while (tm->pending - (tm->running ? 0 : 0) > 0 && !tm->q->empty()) if (!task_run_one(tm, nullptr, g_newest())) break;
           while (tm->pending) { if (!task_run_one(tm, nullptr, g_newest())) block(&tm->pending); } vjoin(cur->vc, tm->taskvc.c); }
}
static void parallel(void (*fn)(void *), void *data, unsigned nthreads, void (*setup)(Team *, void *), void *sarg) {
    int n = team_size(nthreads ? nthreads : g_omp_req);
    S->res.teams++;
    ev("parallel", n);
    Team *tm; { HarnessScope h; tm = new Team(); }
    tm->q = nullptr; tm->running = tm->pending = 0; tm->ntask = 0;
    tm->n = n; tm->done = 0; tm->master = cur; tm->up = cur->team; tm->uptnum = cur->tnum; tm->upws = cur->wsno; tm->level = tm->up ? tm->up->level + 1 : 1;
    memset(tm->ws, 0, sizeof tm->ws);
    if (setup) setup(tm, sarg);
    for (int i = 1; i < n; i++) {
        Thr *t = get_thread(); t->team = tm; t->tnum = i; t->fn = fn; t->arg = data; t->isomp = 1;
        vjoin(t->vc, cur->vc); t->vc[t->id]++;
        became_runnable(t);
    }
    cur->vc[cur->id]++;
    Thr *me = cur;
    me->team = tm; me->tnum = 0; me->wsno = 0;
    step();
    fn(data);
    step();
    task_end_of_region(tm);
    while (tm->done < n - 1) block(tm);
    vjoin(me->vc, tm->taskvc.c);
    vjoin(me->vc, tm->jvc.c);
    me->team = tm->up; me->tnum = tm->uptnum; me->wsno = tm->upws;
    ev("join", n);
    { HarnessScope h; delete tm->q; delete tm; }
    if (n > 1) PROBE("parallel region with several threads");
}
static Work *work_begin(bool *first) {
    static Work solo[8]; static int solo_i;
    Team *tm = cur->team;
    if (!tm) { Work *w = &solo[solo_i++ & 7]; memset(w, 0, sizeof *w); *first = true; w->left = 1; return w; }
    unsigned no = ++cur->wsno;
    Work *w = &tm->ws[no % 32];
    *first = w->no != no;
    if (*first) { memset(w, 0, sizeof *w); w->no = no; }
    return w;
}
static Work *work_cur() { Team *tm = cur->team; if (!tm) return nullptr; return &tm->ws[cur->wsno % 32]; }
static Work *g_solo;
static void barrier() {
    Team *tm = cur->team; if (!tm || tm->n == 1) return;
    step();
    vjoin(tm->barvc.c, cur->vc); cur->vc[cur->id]++;
    uint64_t gen = tm->bargen; ++tm->bar;
    while (tm->bargen == gen) {
        if (tm->pending && task_run_one(tm, nullptr, g_newest())) { vjoin(tm->barvc.c, cur->vc); cur->vc[cur->id]++; continue; }
        if (tm->bargen != gen) break;
        if (tm->bar == tm->n && !tm->pending) { tm->bar = 0; tm->bargen++; wake_all(&tm->bar); break; }
        block(&tm->bar);
    }
    vjoin(cur->vc, tm->barvc.c);
}
static bool loop_next(Work *w, long *is, long *ie) {
    step();
    long span = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end)) return false;
    long ch = w->chunk > 0 ? w->chunk : 1;
    int n = cur->team ? cur->team->n : 1;
    if (w->sched == 1) { long g = span / (2 * n); if (g > ch) ch = g; }      // guided
    if (w->sched == 2) { ch = w->chunk > 0 ? w->chunk : (span + n - 1) / n; }
    if (ch > span) ch = span;
    *is = w->next; w->next += ch * w->incr; *ie = w->next;
    return true;
}
static bool loop_start(int sched, long s, long e, long inc, long chunk, long *is, long *ie) {
    bool first; Work *w = work_begin(&first); g_solo = cur->team ? nullptr : w;
    if (first) { w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->sched = sched; w->inited = 1; }
    return loop_next(w, is, ie);
}
static bool loop_more(long *is, long *ie) { Work *w = cur->team ? work_cur() : g_solo; return w && loop_next(w, is, ie); }

struct LoopArg { long s, e, i, c; int sched; };
static void loop_setup(Team *tm, void *a) { LoopArg *l = (LoopArg *)a; Work *w = &tm->ws[1]; w->no = 1; w->inited = 1; w->next = l->s; w->end = l->e; w->incr = l->i; w->chunk = l->c; w->sched = l->sched; }
struct LoopCall { void (*fn)(void *); void *data; };
static void loop_fn(void *a) { LoopCall *l = (LoopCall *)a; cur->wsno = 1; l->fn(l->data); }
static void par_loop(int sched, void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c) {
    LoopArg la{s, e, i, c, sched}; LoopCall lc{fn, data}; parallel(loop_fn, &lc, nt, loop_setup, &la); }
static void sec_setup(Team *tm, void *a) { Work *w = &tm->ws[1]; w->no = 1; w->sec_n = *(unsigned *)a; w->sec_next = 1; }

struct Lock { int held; int owner; int count; };
static std::unordered_map<uintptr_t, Lock> *g_locks;
static Lock &lk(const void *o) { HarnessScope h; if (!g_locks) g_locks = new std::unordered_map<uintptr_t, Lock>; return (*g_locks)[(uintptr_t)o]; }
static void lock(const void *o, bool nest = false) {
    step(); Lock &l = lk(o);
    if (nest && l.held && l.owner == cur->id) { l.count++; return; }
    while (l.held) { PROBE("lock contention"); block(o); }
    l.held = 1; l.owner = cur->id; l.count = 1; acq(o);
}
static void unlock(const void *o, bool nest = false) {
    Lock &l = lk(o); if (nest && --l.count > 0) return; l.held = 0; rel(o); wake_all(o); step();
}
static int g_atomic_lock, g_crit_lock;
} // namespace sim
using namespace sim;

extern "C" int omp_get_num_threads(void);
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n, nullptr, nullptr); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { LoopCall lc{fn, d}; parallel(loop_fn, &lc, n, sec_setup, &count); }
unsigned GOMP_sections_next() { step(); Work *w = cur->team ? work_cur() : g_solo; if (!w || w->sec_next > w->sec_n) return 0; PROBE("section taken"); return w->sec_next++; }
unsigned GOMP_sections_start(unsigned count) { bool f; Work *w = work_begin(&f); if (!cur->team) g_solo = w; if (f) { w->sec_n = count; w->sec_next = 1; } return GOMP_sections_next(); }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() { step(); bool f; work_begin(&f); return f; }
void *GOMP_single_copy_start() { bool f; Work *w = work_begin(&f); if (f) return nullptr; barrier(); void *r = w->copy; barrier(); return r; }
void GOMP_single_copy_end(void *d) { Work *w = work_cur(); if (w) w->copy = d; barrier(); barrier(); }
void GOMP_critical_start() { lock(&g_crit_lock); }
void GOMP_critical_end() { unlock(&g_crit_lock); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&g_atomic_lock); }
void GOMP_atomic_end() { unlock(&g_atomic_lock); }
static bool ord_loop(bool more, long *, long *) { Work *w = work_cur(); if (w) { cur->ordwork = w; if (more) cur->ordno = w->ordgiven++; } return more; }
static void ord_turn() { Work *w = (Work *)cur->ordwork; if (!w || !cur->team) return; while (w->ordturn != cur->ordno) block(&w->ordturn); acq(&w->ordturn); }
static bool ord_next(long *is, long *ie) { ord_turn(); Work *w = (Work *)cur->ordwork; if (w && cur->team) { rel(&w->ordturn); w->ordturn++; wake_all(&w->ordturn); } return ord_loop(loop_more(is, ie), is, ie); }
void GOMP_ordered_start() { step(); ord_turn(); }
void GOMP_ordered_end() { step(); }
#define ORD(name, sched) \
bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return ord_loop(loop_start(sched, s, e, i, c, is, ie), is, ie); } \
bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { return ord_next(is, ie); }
ORD(static, 2) ORD(dynamic, 0) ORD(guided, 1)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long *is, long *ie) { return ord_loop(loop_start(0, s, e, i, 1, is, ie), is, ie); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return ord_next(is, ie); }
#define LOOPS(name, sched) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(sched, s, e, i, c, is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_more(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(sched, fn, d, n, s, e, i, c); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { (void)up; return loop_start(sched, (long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return loop_more((long *)is, (long *)ie); }
LOOPS(dynamic, 0) LOOPS(guided, 1) LOOPS(static, 2) LOOPS(nonmonotonic_dynamic, 0) LOOPS(nonmonotonic_guided, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(0, fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(0, fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { par_loop(0, fn, d, n, s, e, i, 1); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(0, s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_more(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(0, s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_more(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(0, s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_more(is, ie); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool iff, unsigned flags, void **, int, void *) {
    task_new(fn, d, cpy, sz, al, !iff || (flags & (2 | 8 | 64))); }        // final, depend, detach: at once, which their rules allow
void GOMP_taskloop(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, unsigned flags, unsigned long num, int, long s, long e, long st) {
    unsigned long n = st > 0 ? (e > s ? (unsigned long)((e - s + st - 1) / st) : 0) : (s > e ? (unsigned long)((s - e - st - 1) / -st) : 0); if (!n) return;
    unsigned long parts = (flags & 512) ? (num ? (n + num - 1) / num : 1) : num ? num : (unsigned long)omp_get_num_threads(); if (parts > n) parts = n; if (parts < 1) parts = 1; if (flags & 4096) parts = 1;
    struct { long *p; } dummy; (void)dummy; if (al < 16) al = 16;
    for (unsigned long i = 0; i < parts; i++) { char buf[sz + al]; char *a = (char *)(((uintptr_t)buf + al - 1) / al * al); if (cpy) cpy(a, d); else memcpy(a, d, sz);
        ((long *)a)[0] = s + (long)(n * i / parts) * st; ((long *)a)[1] = i + 1 == parts ? e : s + (long)(n * (i + 1) / parts) * st; task_new(fn, a, nullptr, sz, al, cpy || !(flags & 1024)); }
    if (!(flags & 2048)) task_wait(); }
void GOMP_taskwait() { task_wait(); }
void GOMP_taskwait_depend(void **) { task_wait(); }
void GOMP_taskwait_depend_nowait(void **) {}
void GOMP_taskyield() { step(); if (cur->team && cur->team->q) task_run_one(cur->team, nullptr, g_newest()); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { task_wait(); }
void *GOMP_alloc(size_t al, size_t n, uintptr_t) { void *p = nullptr; if (al < sizeof(void *)) al = sizeof(void *); return posix_memalign(&p, al, n ? n : 1) ? nullptr : p; }
void GOMP_free(void *p, uintptr_t) { free(p); }

int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_thread_num() { return cur && cur->team ? cur->tnum : 0; }
int omp_get_max_threads() { return cur && cur->team ? 1 : g_omp_req ? g_omp_req : P ? (int)P->get("team", 4) : 1; }
void omp_set_num_threads(int n) { g_omp_req = n; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
int omp_get_num_procs() { return P ? (int)P->get("team", 4) : 1; }
int omp_get_thread_limit() { return 8; }
int omp_get_level() { return cur && cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_dynamic() { return P && P->get("teamdyn", 0); }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return S ? (double)S->clock_ns * 1e-9 : 0; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *l) { lk(l) = Lock{}; } void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { step(); if (lk(l).held) return 0; lock(l); return 1; }
void omp_init_nest_lock(void *l) { lk(l) = Lock{}; } void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { lock(l, true); } void omp_unset_nest_lock(void *l) { unlock(l, true); }

// pthread primitives used by the library (renamed in its objects by objcopy)
int sim_pthread_mutex_init(void *m, const void *) { lk(m) = Lock{}; return 0; }
int sim_pthread_mutex_destroy(void *) { return 0; }
int sim_pthread_mutex_lock(void *m) { lock(m); return 0; }
int sim_pthread_mutex_trylock(void *m) { step(); if (lk(m).held) return EBUSY; lock(m); return 0; }
int sim_pthread_mutex_unlock(void *m) { unlock(m); return 0; }
int sim_pthread_once(int *o, void (*f)(void)) { lock(o); if (!*o) { f(); *o = 1; } unlock(o); return 0; }

// ---------------------------------------------------------------- ThreadSanitizer ABI
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); } void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); } void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **, void *) {}
void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

#define ATOMIC(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { step(); acq((const void *)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { step(); *a = v; rel((const void *)a); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = v; rel((const void *)a); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = o + v; rel((const void *)a); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = o - v; rel((const void *)a); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = o & v; rel((const void *)a); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = o | v; rel((const void *)a); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { step(); acq((const void *)a); T o = *a; *a = o ^ v; rel((const void *)a); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { step(); acq((const void *)a); if (*a == *e) { *a = v; rel((const void *)a); return 1; } *e = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { step(); acq((const void *)a); if (*a == *e) { *a = v; rel((const void *)a); return 1; } *e = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { step(); acq((const void *)a); T o = *a; if (o == e) { *a = v; rel((const void *)a); } return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { step(); acq(&g_sync); rel(&g_sync); }
void __tsan_atomic_signal_fence(int) {}
}
