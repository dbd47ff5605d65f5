// Clock, randomness, dynamic loading, terminal, standard streams, atexit; faults; trace.
#include "internal.h"
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <cerrno>
#include <dlfcn.h>
#include <cstdlib>
#include <cmath>

namespace sim {
const char *seam_name[NSEAM] = { "malloc", "open", "read", "write", "close", "rename", "remove", "stat", "seek", "trunc", "mmap", "dlopen", "dlsym", "tty", "stdout", "time", "rand", "disk" };
uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0xff51afd7ed558ccdull ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
double Rng::normal() { double u = unit(), v = unit(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
Plan *P; Shared *S; bool g_on;

static uint64_t fnv(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
static FILE *g_trace; bool tracing() { return g_trace != nullptr; }
void set_trace(FILE *f) { g_trace = f; }
void ev(const char *tag, uint64_t a, uint64_t b) {
    S->res.hash = mix(S->res.hash ^ fnv(tag), mix(a, b) + (cur ? cur->id : 99));
    if (g_trace) { HarnessScope h; fprintf(g_trace, "[%llu] t%d op%d %s %llu %lld\n", (unsigned long long)g_step, cur ? cur->id : -1, S->res.cur_op, tag, (unsigned long long)a, (long long)b); }
}
void evs(const char *tag, const char *str) { S->res.hash = mix(S->res.hash ^ fnv(tag), fnv(str)); if (g_trace) { HarnessScope h; fprintf(g_trace, "      %s=%s\n", tag, str); } }

// ---------------------------------------------------------------- faults
static int g_nofault;
NoFaults::NoFaults() : cap(S->disk.cap) { g_nofault++; S->disk.cap = 0; }
NoFaults::~NoFaults() { g_nofault--; S->disk.cap = cap; }
int fault(Seam s, int64_t *arg) {
    if (!g_on || g_nofault) return 0;
    int64_t n = (int64_t)++S->res.seam_calls[s];
    for (size_t i = 0; i < P->faults.size() && i < 64; i++) {
        const Fault &f = P->faults[i];
        if (f.seam != s) continue;
        bool hit = f.persist == 1 ? n >= f.at : f.persist > 1 ? n >= f.at && n < f.at + f.persist : n == f.at;
        if (hit) { S->fault_fired[i]++; S->res.seam_faults[s]++; if (arg) *arg = f.arg; return f.act; }
    }
    return 0;
}

uint64_t faults_so_far() { uint64_t n = 0; for (auto x : S->res.seam_faults) n += x; return n; }

// ---------------------------------------------------------------- standard streams
static ssize_t out_w(void *c, const char *b, size_t n) {
    int which = (int)(intptr_t)c;
    if (which == 1) { int64_t a; int f = fault(SE_STDOUT, &a); if (f > 0) { errno = f; return 0; } }
    char *buf = which == 1 ? S->outbuf : S->errbuf; size_t &len = which == 1 ? S->outlen : S->errlen; size_t cap = which == 1 ? sizeof S->outbuf : sizeof S->errbuf;
    size_t k = n; if (len + k > cap) k = cap - len; memcpy(buf + len, b, k); len += k;
    S->res.hash = mix(S->res.hash ^ which, n);
    return (ssize_t)n;
}
static FILE *g_out, *g_err; static char g_obuf[4096];
void redirect_stdio() {
    cookie_io_functions_t f = { nullptr, out_w, nullptr, nullptr };
    g_out = fopencookie((void *)1, "w", f); g_err = fopencookie((void *)2, "w", f);
    int om = P ? (int)P->get("outmode") : 0; if (om == 2) setvbuf(g_out, nullptr, _IONBF, 0); else setvbuf(g_out, g_obuf, om == 1 ? _IOLBF : _IOFBF, om == 3 ? 64 : sizeof g_obuf);   /* a terminal, a file, a pipe */ setvbuf(g_err, nullptr, _IONBF, 0);
    stdout = g_out; stderr = g_err;
}
std::string take_stdout() { fflush(g_out); std::string s(S->outbuf + S->outpos, S->outlen - S->outpos); S->outpos = S->outlen; return s; }
std::string take_stderr() { std::string s(S->errbuf + S->errpos, S->errlen - S->errpos); S->errpos = S->errlen; return s; }
void out_mark() { fflush(g_out); S->outpos = S->outlen; S->errpos = S->errlen; if (S->outlen > sizeof S->outbuf / 2) S->outlen = S->outpos = 0; if (S->errlen > sizeof S->errbuf / 2) S->errlen = S->errpos = 0; }

// ---------------------------------------------------------------- clock
static Rng g_trng(1);
static int g_tty, g_cols = 80;
int64_t now_seconds() { int64_t ns = S->clock_ns; return ns >= 0 ? ns / 1000000000 : -((-ns + 999999999) / 1000000000); }
void clock_jump(int64_t s) { S->clock_ns += s * 1000000000ll; S->res.clockjumps++; PROBE("clock jump"); }
static bool g_stopped; void clock_stop(bool s) { g_stopped = s; }
static void tick() { if (g_stopped) return; int64_t d = (int64_t)(g_trng.below(2000) * 1000000ull); S->clock_ns += d; S->res.sim_seconds += d * 1e-9; }
void set_tty(int t, int c) { g_tty = t; g_cols = c; }
void env_init() { g_trng = Rng(mix(P->get("tseed", 3), S->res.incarnation)); g_tty = (int)P->get("tty", 0); g_cols = (int)P->get("cols", 80); }

// ---------------------------------------------------------------- dynamic libraries
struct Lib { std::string name; std::map<std::string, void *> syms; int refs = 0; };
static std::vector<Lib *> g_libs; static thread_local const char *g_dlerr; static thread_local char g_dlbuf[256];
void register_lib(const char *n, const std::map<std::string, void *> &s) { Lib *l = new Lib; l->name = n; l->syms = s; g_libs.push_back(l); }
int lib_refs(const char *n) { for (auto l : g_libs) if (l->name == n) return l->refs; return 0; }
int lib_refs_total() { int t = 0; for (auto l : g_libs) t += l->refs; return t; }
bool lib_loaded(const char *n) { return lib_refs(n) > 0; }
static std::vector<void (*)()> *g_atexit;
void run_atexit() { if (!g_atexit) return; while (!g_atexit->empty()) { auto f = g_atexit->back(); g_atexit->pop_back(); SutScope s; f(); } }
int atexit_count() { return g_atexit ? (int)g_atexit->size() : 0; }
template<class F> static F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) abort(); return f; }
} // namespace sim
using namespace sim;
extern "C" {
time_t time(time_t *t) noexcept { if (!cur_sut()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    fault(SE_TIME); tick(); time_t r = (time_t)now_seconds(); ev("time", (uint64_t)r); if (t) *t = r; return r; }
int gettimeofday(struct timeval *tv, void *tz) noexcept { if (!cur_sut()) return (int)syscall(SYS_gettimeofday, tv, tz); tick(); tv->tv_sec = now_seconds(); tv->tv_usec = (S->clock_ns / 1000) % 1000000; if (tv->tv_usec < 0) tv->tv_usec += 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) noexcept { if (!cur_sut()) return (int)syscall(SYS_clock_gettime, c, ts); tick(); ts->tv_sec = now_seconds(); ts->tv_nsec = ((S->clock_ns % 1000000000) + 1000000000) % 1000000000; return 0; }
clock_t clock() noexcept { return S && g_on ? S->clock_ns / 1000 : 0; }
static struct tm g_tm;         // the C library's one static result buffer
static struct tm *static_tm(const time_t *t) { yield_point("localtime"); harness_write(&g_tm, sizeof g_tm); { HarnessScope h; static auto f = real<struct tm *(*)(const time_t *, struct tm *)>("localtime_r"); f(t, &g_tm); } yield_point("localtime"); return &g_tm; }
struct tm *localtime(const time_t *t) noexcept { if (cur_sut()) return static_tm(t); static auto f = real<struct tm *(*)(const time_t *)>("localtime"); HarnessScope h; return f(t); }
struct tm *gmtime(const time_t *t) noexcept { if (cur_sut()) return static_tm(t); static auto f = real<struct tm *(*)(const time_t *)>("gmtime"); HarnessScope h; return f(t); }
struct tm *localtime_r(const time_t *__restrict t, struct tm *__restrict r) noexcept { static auto f = real<struct tm *(*)(const time_t *, struct tm *)>("localtime_r"); HarnessScope h; return f(t, r); }
time_t mktime(struct tm *t) noexcept { static auto f = real<time_t (*)(struct tm *)>("mktime"); HarnessScope h; return f(t); }

// rand(): one stream for the process; "burst" makes the first draws extreme
void srand(unsigned seed) noexcept { if (S && g_on) { S->rand_state = mix(seed, P->get("rseed", 5)); ev("srand", seed); } }
int rand() noexcept {
    if (!S || !g_on) return 4;
    fault(SE_RAND);
    uint64_t n = S->rand_calls++;
    int64_t burst = P->get("rburst", 0), from = P->get("rfrom", 0);
    if (burst && (int64_t)n >= from && (int64_t)n < from + burst) {
        PROBE("extreme random draw");
        switch (P->get("rmode", 0)) { case 0: return 0; case 1: return RAND_MAX; case 2: return RAND_MAX / 2; case 3: return RAND_MAX / 2 + 1; case 4: return (n & 1) ? RAND_MAX : 0; default: return (n & 1) ? RAND_MAX / 2 : RAND_MAX / 2 + 1; }
    }
    Rng r(0); r.s = S->rand_state; uint64_t v = r.u64(); S->rand_state = r.s; return (int)(v & 0x7fffffff);
}
long random() noexcept { return rand(); }
void srandom(unsigned s) noexcept { srand(s); }
int rand_r(unsigned *s) noexcept { *s = *s * 1103515245u + 12345u; return (int)((*s >> 1) & 0x7fffffff); }
static uint64_t os_random() { return S ? mix(++S->disk.ntmp, P ? P->get("rseed", 5) : 5) : 7; }
void arc4random_buf(void *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)os_random(); }
uint32_t arc4random_uniform(uint32_t n) noexcept { return n < 2 ? 0 : (uint32_t)(os_random() % n); }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!cur_sut()) return syscall(SYS_getrandom, b, n, f); arc4random_buf(b, n); return (ssize_t)n; }
int getentropy(void *b, size_t n) { if (!cur_sut()) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; arc4random_buf(b, n); return 0; }
double drand48() noexcept { return rand() / 2147483648.0; }
long lrand48() noexcept { return rand(); }
void srand48(long s) noexcept { srand((unsigned)s); }
pid_t getpid() noexcept { return cur_sut() ? 4242 + S->res.incarnation : (pid_t)syscall(SYS_getpid); }
unsigned sleep(unsigned s) { if (!cur_sut()) { struct timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } S->clock_ns += s * 1000000000ll; yield_point("sleep"); return 0; }
int usleep(useconds_t u) { if (!cur_sut()) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } S->clock_ns += u * 1000ll; yield_point("sleep"); return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) { if (!cur_sut()) return (int)syscall(SYS_nanosleep, r, rem); S->clock_ns += r->tv_sec * 1000000000ll + r->tv_nsec; yield_point("sleep"); return 0; }
int sched_yield() noexcept { if (!cur_sut()) return (int)syscall(SYS_sched_yield); yield_point("sched_yield"); return 0; }
unsigned arc4random() noexcept { if (S && g_on) return (unsigned)mix(++S->disk.ntmp, 42); return 7; }

void *sim_dlopen(const char *name, int) {
    yield_point("dlopen"); int f = fault(SE_DLOPEN); evs("dlopen", name ? name : "(null)");
    HarnessScope h;
    if (!f && name) for (auto l : g_libs) if (l->name == name) { l->refs++; return l; }
    snprintf(g_dlbuf, sizeof g_dlbuf, "%s: cannot open shared object file", name ? name : "?"); g_dlerr = g_dlbuf; return nullptr;
}
void *sim_dlsym(void *hd, const char *sym) {
    yield_point("dlsym"); int f = fault(SE_DLSYM); evs("dlsym", sym); HarnessScope h;
    Lib *l = nullptr; for (auto x : g_libs) if (x == hd) l = x;
    if (!l || l->refs <= 0) violation("bad-dlsym", "dlsym on a library handle that is not open");
    auto it = l->syms.find(sym);
    if (f || it == l->syms.end()) { snprintf(g_dlbuf, sizeof g_dlbuf, "undefined symbol: %s", sym); g_dlerr = g_dlbuf; return nullptr; }
    return it->second;
}
int sim_dlclose(void *hd) { HarnessScope h; ev("dlclose"); for (auto x : g_libs) if (x == hd) { if (x->refs <= 0) violation("bad-dlclose", "dlclose of a library handle that is not open"); x->refs--; return 0; } violation("bad-dlclose", "dlclose of an invalid handle"); }
char *sim_dlerror() { const char *e = g_dlerr; g_dlerr = nullptr; return (char *)e; }

int sim_atexit(void (*f)()) { HarnessScope h; if (!g_atexit) g_atexit = new std::vector<void (*)()>; g_atexit->push_back(f); return 0; }
[[noreturn]] void sim___assert_fail(const char *e, const char *file, unsigned, const char *fn) { const char *b = strrchr(file, '/'); violation("assert", "the library aborted the process: %s, %s: assertion `%s' failed", b ? b + 1 : file, fn, e); }
[[noreturn]] void sim_exit(int c) { violation("exit", "the library ended the process with exit(%d)", c); }
int isatty(int fd) noexcept { if (cur_sut()) { int f = fault(SE_TTY); if (f > 0) { errno = f; return 0; } return g_tty; } struct { int a[16]; } t; return syscall(SYS_ioctl, fd, 0x5401, &t) == 0; }
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    if (cur_sut()) { if (req == TIOCGWINSZ) { int64_t arg = 0; int f = fault(SE_TTY, &arg); if (f > 0) { errno = f; return -1; } struct winsize *w = (struct winsize *)a; memset(w, 0, sizeof *w); w->ws_col = g_cols; w->ws_row = 24; return 0; } errno = ENOTTY; return -1; }
    return (int)syscall(SYS_ioctl, fd, req, a);
}
}
