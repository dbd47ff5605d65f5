// Plan text format, run control, probes, campaign driver, gating, minimisation.
#include "internal.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sys/personality.h>
#include <signal.h>
#include <time.h>
#include <cerrno>
#include <cstdlib>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <atomic>
#include <regex>
#include <malloc.h>
#include <fcntl.h>
#include <sys/syscall.h>

extern "C" const char *sut_variant;

namespace sim {
void set_trace(FILE *f);
// ---------------------------------------------------------------- plan text
static const struct { int code; const char *name; } ACTS[] = {
    {FA_CRASH, "crash"}, {FA_CRASH_AFTER, "crash-after"}, {FA_TORN_CRASH, "torn-crash"}, {FA_SHORT, "short"}, {FA_TORN_ERR, "torn-err"},
    {EIO, "EIO"}, {ENOSPC, "ENOSPC"}, {ENOMEM, "ENOMEM"}, {EACCES, "EACCES"}, {EMFILE, "EMFILE"}, {ENOENT, "ENOENT"}, {EROFS, "EROFS"}, {ENOTTY, "ENOTTY"}, {EDQUOT, "EDQUOT"}, {EPIPE, "EPIPE"}, {EINTR, "EINTR"}, {EPERM, "EPERM"} };
std::string action_name(int a) { for (auto &x : ACTS) if (x.code == a) return x.name; return std::to_string(a); }
int action_code(const std::string &s) { for (auto &x : ACTS) if (s == x.name) return x.code; return atoi(s.c_str()); }

std::string Plan::text() const {
    std::ostringstream o;
    o << "simnn-replay 1\nprop " << prop << "\nvariant " << variant << "\nscen " << scen << "\nseed " << seed << "\n";
    for (auto &k : set) o << "set " << k.first << " " << k.second << "\n";
    for (auto &p : ops) { o << "op " << p.name; for (auto v : p.a) o << " " << v; o << "\n"; }
    for (auto &f : faults) o << "fault " << seam_name[f.seam] << " " << f.at << " " << action_name(f.act) << " " << f.arg << " " << f.persist << "\n";
    o << "sched " << sched << " " << schedseed << " " << schedarg << "\n";
    for (auto &s : sw) o << "sw " << s.inc << " " << s.step << " " << s.tid << "\n";
    if (!cls.empty()) o << "class " << cls << "\n";
    if (!hash.empty()) o << "hash " << hash << "\n";
    if (!note.empty()) { std::istringstream is(note); std::string l; while (std::getline(is, l)) o << "# " << l << "\n"; }
    return o.str();
}
bool Plan::parse(const std::string &txt, std::string *err) {
    std::istringstream is(txt); std::string line; bool head = false;
    *this = Plan();
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if (k == "simnn-replay") head = true;
        else if (k == "prop") l >> prop; else if (k == "variant") l >> variant; else if (k == "scen") l >> scen;
        else if (k == "seed") l >> seed;
        else if (k == "set") { std::string n; int64_t v; l >> n >> v; set[n] = v; }
        else if (k == "op") { Op o; l >> o.name; int64_t v; while (l >> v) o.a.push_back(v); ops.push_back(o); }
        else if (k == "fault") { std::string s, a; Fault f{}; l >> s >> f.at >> a >> f.arg >> f.persist; f.seam = -1; for (int i = 0; i < NSEAM; i++) if (s == seam_name[i]) f.seam = i; if (f.seam < 0) { *err = "bad seam " + s; return false; } f.act = action_code(a); faults.push_back(f); }
        else if (k == "sched") l >> sched >> schedseed >> schedarg;
        else if (k == "sw") { Switch s{}; l >> s.inc >> s.step >> s.tid; sw.push_back(s); }
        else if (k == "class") { l >> std::ws; std::getline(l, cls); } else if (k == "hash") l >> hash;
        else { *err = "unknown line: " + line; return false; }
    }
    if (!head) { *err = "not a replay file"; return false; }
    return true;
}

// ---------------------------------------------------------------- global statistics (shared between all processes)
constexpr size_t HS = 1 << 21;
struct GStat {
    std::atomic<uint64_t> runs, dry, children, steps, nswitch, crashes, teams, restarts, races, yields, short_reads, clockjumps, faulted, switched, known;
    std::atomic<uint64_t> seam_faults[NSEAM], seam_calls[NSEAM];
    std::atomic<uint64_t> act_count[64];
    std::atomic<uint64_t> sim_ms;
    std::atomic<uint64_t> traces[HS], scheds[HS]; std::atomic<uint64_t> ntrace, nsched;
    struct { std::atomic<uint64_t> h; char name[72]; std::atomic<uint64_t> n; } probe[NPROBE];
    std::atomic<uint64_t> stop_idx; std::atomic<uint64_t> stop_now; std::atomic<uint64_t> scen_runs[64];
    std::atomic<uint64_t> knownhit[64];
};
static GStat *G;
static void hs_add(std::atomic<uint64_t> *t, std::atomic<uint64_t> &n, uint64_t h) {
    if (!h) h = 1;
    if (n.load() > HS / 2) return;
    for (size_t i = h % HS;; i = (i + 1) % HS) { uint64_t c = t[i].load(); if (c == h) return; if (!c) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) { n++; return; } if (z == h) return; } }
}
int probe_id(const char *name) {
    uint64_t h = 1469598103934665603ull; for (const char *c = name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull; if (!h) h = 1;
    for (int k = 0, i = (int)(h % NPROBE); k < NPROBE; k++, i = (i + 1) % NPROBE) {
        uint64_t c = G->probe[i].h.load(); if (c == h) return i;
        if (!c) { uint64_t z = 0; if (G->probe[i].h.compare_exchange_strong(z, h)) { strncpy(G->probe[i].name, name, 71); return i; } if (z == h) return i; }
    }
    return -1;
}
void probe_hit(int id) { if (id >= 0) G->probe[id].n++; }

// ---------------------------------------------------------------- run control (child side)
static void child_exit(int code) { _exit(code); }
void violation(const char *cls, const char *fmt, ...) {
    g_on = false;
    if (S->res.status == RS_NONE) {
        va_list ap; va_start(ap, fmt);
        HarnessScope h;
        snprintf(S->res.cls, sizeof S->res.cls, "%s", cls); vsnprintf(S->res.msg, sizeof S->res.msg, fmt, ap); va_end(ap);
        S->res.steps = g_step; S->res.status = RS_VIOL;
        if (!S->res.pc1) S->res.pc1 = 0;
    }
    child_exit(0); __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
    g_on = false;
    va_list ap; va_start(ap, fmt); { HarnessScope h; vsnprintf(S->res.msg, sizeof S->res.msg, fmt, ap); } va_end(ap);
    S->res.status = RS_ERR; child_exit(0); __builtin_unreachable();
}
void die_crash() { ev("process dies"); S->res.crashes++; S->res.steps += g_step; g_on = false; child_exit(77); __builtin_unreachable(); }
void finish_ok() { S->res.steps += g_step; S->res.status = RS_OK; g_on = false; child_exit(0); __builtin_unreachable(); }
void restart_clean() { ev("restart"); run_atexit(); S->res.steps += g_step; g_on = false; child_exit(78); __builtin_unreachable(); }

static void on_sig(int sig, siginfo_t *si, void *uc) {
    if (S->res.status == RS_NONE) {
        const char *n = sig == SIGSEGV ? "SEGV" : sig == SIGBUS ? "BUS" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL" : sig == SIGABRT ? "ABRT" : "PROF";
        if (sig == SIGPROF) { snprintf(S->res.cls, sizeof S->res.cls, "hang"); S->res.hash = 99; S->res.sched_hash = 0; }   // (where an endless loop is stopped is no property of the plan)
        else snprintf(S->res.cls, sizeof S->res.cls, "signal:%s", n);
        uint64_t pc = (uint64_t)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
        S->res.pc1 = pc;
        if (sig == SIGABRT) {
            size_t k = S->errlen < 1500 ? S->errlen : 1500; char *m = S->res.msg; strcpy(m, "abort: "); memcpy(m + 7, S->errbuf + S->errlen - k, k); m[7 + k] = 0; S->res.pc1 = 0;
        } else if (sig == SIGPROF) snprintf(S->res.msg, sizeof S->res.msg, "no progress: CPU limit of the run exceeded");
        else {
            uintptr_t a = (uintptr_t)si->si_addr;
            const char *w = a < 65536 ? "near NULL" : a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE ? "in the simulated heap (alignment fault or bounds)" : a >= STACK_BASE && a < STACK_BASE + STACK_TOTAL ? "in a simulated stack" : a >= 0x230000000000ull && a < 0x240000000000ull ? "in a file mapping, beyond the file" : "outside any mapping";
            snprintf(S->res.msg, sizeof S->res.msg, "the library crashed with signal %s, address %s", n, w);
        }
        S->res.status = RS_VIOL;
    }
    _exit(0);
}
extern "C" void __asan_on_error() {
    if (S && S->res.status == RS_NONE) { snprintf(S->res.cls, sizeof S->res.cls, "asan"); S->res.status = RS_VIOL; }
}
extern "C" void asan_report_cb(const char *rep) {
    if (!S) return;
    const char *e = strstr(rep, "ERROR: AddressSanitizer: "); if (e) { e += 25; int n = (int)strcspn(e, " \n"); snprintf(S->res.cls, sizeof S->res.cls, "asan:%.*s", n, e); }
    const char *w = strstr(rep, "WRITE of size"); if (!w) w = strstr(rep, "READ of size"); const char *at = strstr(rep, "#0 ");
    snprintf(S->res.msg, sizeof S->res.msg, "AddressSanitizer: %.*s %.*s", w ? (int)strcspn(w, " \n") + 10 : 0, w ? w : "", at ? (int)strcspn(at, "\n") : 0, at ? at : "");
    const char *pc = strstr(rep, "#0 0x"); if (pc) S->res.pc1 = strtoull(pc + 3, nullptr, 16);
    const char *p1 = strstr(rep, "#1 0x"); if (p1) S->res.pc2 = strtoull(p1 + 3, nullptr, 16);
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:abort_on_error=0:exitcode=0:detect_stack_use_after_return=0:replace_str=1:symbolize=0:strict_memcmp=0:log_path=/dev/null"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=0:log_path=/dev/null"; }
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(const char *));

extern uint64_t g_maxsteps;
static double g_cpu = 12;              // seconds of CPU time of one incarnation
static void child_main() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigfillset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    sigset_t em; sigemptyset(&em); sigprocmask(SIG_SETMASK, &em, nullptr);
    struct itimerval it{}; double cpu = g_cpu * (double)P->get("slow", 1); it.it_value.tv_sec = (long)cpu; it.it_value.tv_usec = (long)((cpu - (long)cpu) * 1e6); setitimer(ITIMER_PROF, &it, nullptr);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report_cb);
    arena_init(P->get("aseed", 9), (int)P->get("fill", 0), (int)P->get("reuse", 0));
    disk_init(); env_init(); redirect_stdio(); sched_init();
    Scenario *sc = find_scenario(P->scen);
    run_main([sc] { g_on = true; sc->run(); });
}
void set_altstack() { static __thread char buf[16384]; stack_t ss{}; ss.ss_sp = buf; ss.ss_size = sizeof buf; sigaltstack(&ss, nullptr); }

// runs the plan P in children until it ends; result in S
static void run_plan() {
    memset(&S->res, 0, sizeof S->res); memset(&S->disk, 0, sizeof S->disk);
    memset(S->fault_fired, 0, sizeof S->fault_fired); memset(S->model, 0, sizeof S->model);
    S->clock_ns = P->get("clock0", 1700000000) * 1000000000ll; S->rand_state = mix(1, P->get("rseed", 5)); S->rand_calls = 0;
    S->outlen = S->errlen = S->outpos = S->errpos = 0;
    for (;;) {
        G->children++;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) { child_main(); _exit(99); }
        int st; time_t t0 = time(nullptr); (void)t0;
        double waited = 0; int r;
        for (int spin = 0;; spin++) {
            r = waitpid(pid, &st, spin < 2000 && waited < 0.5 ? WNOHANG : 0);
            if (r == pid) break;
            if (r == 0) { struct timespec ts{0, 50000}; syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &ts, nullptr); waited += 5e-5; }
        }
        if (S->res.status != RS_NONE) break;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) {
            disk_crash_cleanup();
            if (++S->res.incarnation >= 64) { S->res.status = RS_ERR; snprintf(S->res.msg, 200, "too many restarts"); break; }
            continue;
        }
        if (WIFSIGNALED(st)) { S->res.status = RS_ERR; snprintf(S->res.msg, sizeof S->res.msg, "child killed by signal %d", WTERMSIG(st)); break; }
        if (WIFEXITED(st) && S->res.status == RS_NONE) {
            // exit() by somebody, or an ASan report cut short
            if (WEXITSTATUS(st) == 0) { S->res.status = RS_VIOL; if (!S->res.cls[0]) snprintf(S->res.cls, 64, "exit"); snprintf(S->res.msg, 200, "the process ended by itself"); }
            else { S->res.status = RS_ERR; snprintf(S->res.msg, sizeof S->res.msg, "child exit code %d", WEXITSTATUS(st)); }
            break;
        }
    }
    auto &r = S->res;
    G->steps += r.steps; G->nswitch += r.nswitch; G->crashes += r.crashes; G->teams += r.teams; G->restarts += r.incarnation; G->races += r.races_checked;
    G->yields += r.yields; G->sim_ms += (uint64_t)(r.sim_seconds * 1000 + r.yields * 0.001); G->short_reads += r.shortreads; G->clockjumps += r.clockjumps;
    for (int i = 0; i < NSEAM; i++) { G->seam_calls[i] += r.seam_calls[i]; G->seam_faults[i] += r.seam_faults[i]; }
}
static void count_run(int scen) {
    auto &r = S->res; uint64_t nf = 0; for (int i = 0; i < NSEAM; i++) nf += r.seam_faults[i];
    G->runs++; if (scen >= 0) G->scen_runs[scen]++;
    for (size_t i = 0; i < P->faults.size() && i < 64; i++) if (S->fault_fired[i]) { int a = P->faults[i].act; G->act_count[a < 0 ? 32 - a : a == EIO ? 1 : a == ENOSPC ? 2 : a == ENOMEM ? 3 : a == EACCES ? 4 : a == EMFILE ? 5 : 6] += S->fault_fired[i]; }
    if (nf) G->faulted++;
    if (r.nswitch > 0) G->switched++;
    bool nontrivial = nf || r.crashes || r.threads_max > 1 || r.shortreads || r.incarnation || P->get("nontrivial", 0);
    if (nontrivial) hs_add(G->traces, G->ntrace, mix(r.hash, r.sched_hash));
    if (r.threads_max > 1) hs_add(G->scheds, G->nsched, r.sched_hash);
}

// ---------------------------------------------------------------- generation
void gen_sched(Rng &r, Plan &p, uint64_t est) {
    p.schedseed = r.u64() >> 1;
    if (est < 50) est = 50;
    switch (r.below(10)) {
    case 0: p.sched = "run"; break;
    case 1: p.sched = "rr"; p.schedarg = 1 + r.below(est < 400 ? 20 : 300); break;
    case 2: case 3: p.sched = "pct"; p.schedarg = est; p.set["pct_d"] = r.range(1, 5); break;
    case 4: p.sched = "rand"; p.schedarg = r.range(2, 5); break;
    case 5: case 6: p.sched = "rand"; p.schedarg = r.range(10, 60); break;
    default: p.sched = "rand"; p.schedarg = std::max<int64_t>(20, est / r.range(4, 60)); break;
    }
}
static bool g_dryviol;
static Plan make_plan(const std::string &prop, uint64_t base, uint64_t idx) {
    PropDef *pd = find_prop(prop);
    Rng r(mix(base, idx * 2 + 1));
    double tot = 0; for (auto &s : pd->scen) tot += s.second;
    double x = r.unit() * tot; const char *name = pd->scen.back().first;
    for (auto &s : pd->scen) { if (x < s.second) { name = s.first; break; } x -= s.second; }
    Plan p; p.prop = prop; p.variant = sut_variant; p.scen = name; p.seed = mix(base, idx * 2 + 1);
    p.set["aseed"] = r.below(1000000); p.set["fill"] = r.range(0, 3); if (r.chance(0.3)) p.set["reuse"] = r.chance(0.6) ? 100 : r.range(20, 95); p.set["wseed"] = r.below(1u << 30);
    p.set["team"] = r.range(1, 6);
    Scenario *sc = find_scenario(name);
    sc->gen(r, p);
    g_dryviol = false;
    if (sc->gen_faults) {
        std::string os = p.sched; auto osd = p.schedarg; auto oss = p.schedseed;
        p.sched = "run"; P = &p; G->dry++;
        run_plan();
        if (S->res.status != RS_OK) { g_dryviol = true; return p; }
        p.sched = os; p.schedarg = osd; p.schedseed = oss;
        Result dry = S->res;
        sc->gen_faults(r, p, dry);
    }
    return p;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, pat, text; std::regex re; };
static std::vector<Known> g_known;
static void load_known(const char *path) {
    std::ifstream f(path); std::string l;
    while (std::getline(f, l)) {
        // known: property=Cxx class=<class> match=/<regex>/ <text>
        if (l.compare(0, 6, "known:")) continue;
        Known k; std::smatch m;
        if (std::regex_search(l, m, std::regex("property=(\\S+) class=(\\S+) match=/(.*)/ (.*)$"))) { k.prop = m[1]; k.cls = m[2]; k.pat = m[3]; k.text = m[4]; k.re = std::regex(k.pat); g_known.push_back(k); }
    }
}
static int known_index(const Plan &p) {
    for (size_t i = 0; i < g_known.size() && i < 64; i++) if (g_known[i].prop == p.prop && g_known[i].cls == S->res.cls && std::regex_search(std::string(S->res.msg), g_known[i].re)) return (int)i;
    return -1;
}
static std::string sym(uint64_t pc) {
    if (!pc) return "";
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return ""; exe[n] = 0;
    char cmd[800]; snprintf(cmd, sizeof cmd, "addr2line -f -s -e '%s' 0x%llx 2>/dev/null | head -2 | tr '\\n' ' '", exe, (unsigned long long)pc - 1);
    FILE *f = popen(cmd, "r"); if (!f) return ""; char b[300]; size_t k = fread(b, 1, sizeof b - 1, f); b[k] = 0; pclose(f);
    return std::string(b, k);
}

// ---------------------------------------------------------------- minimisation
static double mono() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static int g_mintries;
static bool still(Plan &p, const std::string &cls) { g_mintries++; P = &p; run_plan(); return S->res.status == RS_VIOL && cls == S->res.cls && known_index(p) < 0; }
template<class T> static bool ddmin(Plan &p, std::vector<T> Plan::*mem, const std::string &cls, double deadline) {
    bool any = false;
    size_t n = (p.*mem).size(); if (!n) return false;
    { Plan q = p; (q.*mem).clear(); if (still(q, cls)) { p = q; return true; } }
    for (size_t chunk = (n + 1) / 2; chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < (p.*mem).size() && mono() < deadline;) {
            Plan q = p; auto &v = q.*mem; size_t e = std::min(i + chunk, v.size()); v.erase(v.begin() + i, v.begin() + e);
            if (still(q, cls)) { p = q; any = true; } else i += chunk;
        }
        if (chunk == 1) break;
    }
    return any;
}
static void minimise(Plan &p, const std::string &cls, double budget) {
    double dl = mono() + budget; Scenario *sc = find_scenario(p.scen);
    double cpu = g_cpu; g_cpu = std::min(cpu, 6.0);
    for (int round = 0; round < 4 && mono() < dl; round++) {
        bool any = false;
        if (p.sched != "run") { Plan q = p; q.sched = "run"; q.sw.clear(); q.schedarg = 0; if (still(q, cls)) { p = q; any = true; } }
        any |= ddmin(p, &Plan::faults, cls, dl);
        any |= ddmin(p, &Plan::ops, cls, dl);
        for (auto &s : sc->shrink) {
            if (mono() > dl || !p.has(s.first) || p.get(s.first) <= s.second) continue;
            int64_t lo = s.second, hi = p.get(s.first);
            { Plan q = p; q.set[s.first] = lo; if (still(q, cls)) { p = q; any = true; continue; } }
            while (hi - lo > 1 && mono() < dl) { int64_t m = lo + (hi - lo) / 2; Plan q = p; q.set[s.first] = m; if (still(q, cls)) { p = q; hi = m; any = true; } else lo = m; }
        }
        if (!any) break;
    }
    if (p.sched != "run" && p.sched != "list") {
        if (still(p, cls) && !S->res.overflow) {
            Plan q = p; q.sched = "list"; q.schedarg = 0; q.sw.assign(S->sw, S->sw + S->res.nrec);
            if (still(q, cls)) { p = q; }
        }
    }
    if (p.sched == "list") ddmin(p, &Plan::sw, cls, mono() + budget / 2);
    g_cpu = cpu;
}

// ---------------------------------------------------------------- campaign
static std::string hex(uint64_t h) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
static uint64_t full_hash() { return mix(S->res.hash, S->res.sched_hash); }
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Opt { std::string prop, out, replaydir, known, replay; uint64_t seed = 1, runs = 100, start = 0; double time = 60, minbudget = 30; int workers = 8; bool trace = false, hashes = false, keepgoing = false; };

static int do_replay(const Opt &o, const char *argv0) {
    (void)argv0;
    std::ifstream f(o.replay); if (!f) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 2; }
    std::stringstream ss; ss << f.rdbuf(); static Plan p; std::string err;
    if (!p.parse(ss.str(), &err)) { fprintf(stderr, "%s: %s\n", o.replay.c_str(), err.c_str()); return 2; }
    if (p.variant != sut_variant) { fprintf(stderr, "replay is for variant %s\n", p.variant.c_str()); return 2; }
    if (!find_scenario(p.scen)) { fprintf(stderr, "unknown scenario\n"); return 2; }
    P = &p; if (o.trace) { FILE *tf = fdopen(dup(1), "w"); setvbuf(tf, nullptr, _IOLBF, 0); set_trace(tf); }
    run_plan();
    if (S->res.status == RS_ERR) { printf("HARNESS-ERROR %s\n", S->res.msg); return 2; }
    if (S->res.status == RS_OK) { printf("REPLAY no violation hash=%s\n", hex(full_hash()).c_str()); return 0; }
    printf("REPLAY property=%s class=%s hash=%s incarnation=%d steps=%llu\n  %s\n  at %s %s\n", p.prop.c_str(), S->res.cls, hex(full_hash()).c_str(), S->res.incarnation, (unsigned long long)S->res.steps, S->res.msg, sym(S->res.pc1).c_str(), sym(S->res.pc2).c_str());
    return 1;
}

static int scen_index(PropDef *pd, const std::string &n) { for (size_t i = 0; i < pd->scen.size(); i++) if (n == pd->scen[i].first) return (int)i; return -1; }
struct Found { uint64_t idx; int harness; char msg[512]; };
static Found *F;    // per worker

static void worker(const Opt &o, int w, double deadline) {
    PropDef *pd = find_prop(o.prop);
    FILE *hf = nullptr; if (o.hashes) { std::string fn = o.out + ".hash." + std::to_string(w); hf = fopen(fn.c_str(), "w"); if (hf) setvbuf(hf, nullptr, _IOLBF, 0); }
    for (uint64_t i = w; i < o.runs; i += o.workers) {
        if (i > G->stop_idx.load() || mono() > deadline) break;
        static Plan p; p = make_plan(o.prop, o.seed, o.start + i);
        if (!g_dryviol) { P = &p; run_plan(); }
        if (S->res.status == RS_VIOL && S->res.hash == 99) { double c = g_cpu; g_cpu *= 4; P = &p; run_plan(); g_cpu = c; }    // stopped by the CPU limit: endless, or a slow machine?
        count_run(scen_index(pd, p.scen));
        if (hf) { fprintf(hf, "%llu %s %d\n", (unsigned long long)i, hex(full_hash()).c_str(), S->res.status); }
        if (S->res.status == RS_VIOL) {
            int k = known_index(p);
            if (k >= 0) { G->known++; G->knownhit[k]++; continue; }
            if (o.keepgoing) { char line[700]; snprintf(line, sizeof line, "V %llu %s %s: %s @ %s\n", (unsigned long long)i, p.scen.c_str(), S->res.cls, S->res.msg, sym(S->res.pc1).c_str()); for (char *c = line; *c && c[1]; c++) if (*c == '\n') *c = ' '; if (write(1, line, strlen(line)) < 0) {} continue; }
            F[w].idx = i; snprintf(F[w].msg, sizeof F[w].msg, "%s", S->res.cls); uint64_t c = G->stop_idx.load(); while (i < c && !G->stop_idx.compare_exchange_weak(c, i)) {}
            break;
        }
        if (S->res.status == RS_ERR) { F[w].harness = 1; snprintf(F[w].msg, sizeof F[w].msg, "run %llu scen %s: %s", (unsigned long long)i, p.scen.c_str(), S->res.msg); G->stop_idx = 0; break; }
    }
    if (hf) fclose(hf);
}

static int campaign(const Opt &o, const char *argv0) {
    double t0 = mono(), deadline = t0 + o.time;
    G->stop_idx = ~0ull;
    F = (Found *)mmap(nullptr, sizeof(Found) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 64; i++) F[i].idx = ~0ull;
    std::vector<pid_t> pids;
    for (int w = 0; w < o.workers; w++) {
        pid_t p = fork(); if (p < 0) { perror("fork"); return 2; }
        if (p == 0) { S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); worker(o, w, deadline); _exit(0); }
        pids.push_back(p);
    }
    bool bad = false;
    for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) { fprintf(stderr, "a campaign worker died\n"); return 2; }
    for (int i = 0; i < o.workers; i++) if (F[i].harness) { fprintf(stderr, "HARNESS-ERROR %s\n", F[i].msg); return 2; }
    uint64_t vi = ~0ull; for (int i = 0; i < o.workers; i++) vi = std::min(vi, F[i].idx);
    int rc = 0; std::string vline, vcls, vmsg;
    double wall_search = mono() - t0;
    if (vi != ~0ull) {
        static Plan p; p = make_plan(o.prop, o.seed, o.start + vi);
        P = &p; run_plan(); uint64_t h1 = full_hash(); std::string cls = S->res.cls; int st1 = S->res.status;
        run_plan(); uint64_t h2 = full_hash();
        // The simulator controls everything the library may depend on. A run that violates the property
        // and then does something else under the same plan reads what no input determines (an
        // uninitialised variable, say): still the violation, reported with the plan as it was found.
        bool unstable = false; std::string unote;
        if (st1 != RS_VIOL || S->res.status != RS_VIOL || h1 != h2 || cls != S->res.cls) {
            unstable = true; unote = "the same plan gave another execution when repeated in this process";
            if (st1 != RS_VIOL && S->res.status == RS_VIOL) cls = S->res.cls;
            for (int k = 0; k < 20 && S->res.status != RS_VIOL; k++) run_plan();
            if (S->res.status == RS_ERR) { fprintf(stderr, "HARNESS-ERROR run %llu does not repeat: %s\n", (unsigned long long)vi, S->res.msg); return 2; }
            if (S->res.status == RS_VIOL) cls = S->res.cls; else if (cls.empty()) { cls = F[0].msg; for (int i = 0; i < o.workers; i++) if (F[i].idx == vi) cls = F[i].msg; }
            vmsg = S->res.status == RS_VIOL ? S->res.msg : "violated when first run, not when repeated";
        }
        Plan orig = p;
        if (!unstable) {
            minimise(p, cls, o.minbudget);
            if (!still(p, cls)) { p = orig; if (!still(p, cls)) { unstable = true; unote = "the violation did not come back after minimisation"; } }
            vmsg = S->res.msg;
        }
        p.cls = cls; p.hash = hex(full_hash()); vcls = p.cls;
        std::string where = sym(S->res.pc1);
        std::ostringstream note; note << "violation: " << S->res.msg << "\nat: " << where << "\nincarnation " << S->res.incarnation << ", step " << S->res.steps << ", operation " << S->res.cur_op << "\nfound at run " << vi << " of seed " << o.seed << "; minimised with " << g_mintries << " runs\noriginal plan had " << orig.ops.size() << " operations, " << orig.faults.size() << " faults, schedule " << orig.sched;
        if (unstable) note << "\nNOT REPEATABLE: " << unote;
        p.note = note.str();
        mkdir(o.replaydir.c_str(), 0777);
        std::string path = o.replaydir + "/" + o.prop + "-" + sut_variant + "-" + p.hash.substr(0, 8) + ".replay";
        { std::ofstream f(path); f << p.text(); }
        // fresh process: what counts is what it does there
        auto fresh = [&](std::string *out) { { std::ofstream f(path); f << p.text(); }
            std::string cmd = std::string("'") + argv0 + "' --replay '" + path + "'"; FILE *pf = popen(cmd.c_str(), "r"); out->clear(); char b[512]; size_t k; while ((k = fread(b, 1, sizeof b, pf)) > 0) out->append(b, k); int st = pclose(pf); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
        std::string outp; bool viol = fresh(&outp);
        if (!viol || outp.find("class=" + p.cls + " hash=" + p.hash) == std::string::npos) {
            if (!viol && !unstable) { Plan m = p; p = orig; p.note = m.note + "\n(not minimised)"; viol = fresh(&outp); if (!viol) p = m; }
            if (viol) { // take over what the fresh process reports
                size_t c = outp.find("class="), h = outp.find("hash="), n = outp.find("\n  "); if (c != std::string::npos && h != std::string::npos) { p.cls = outp.substr(c + 6, outp.find(' ', c) - c - 6); p.hash = outp.substr(h + 5, outp.find(' ', h) - h - 5); }
                if (n != std::string::npos) vmsg = outp.substr(n + 3, outp.find('\n', n + 3) - n - 3);
                vcls = p.cls; viol = fresh(&outp);
            }
            if (!viol || outp.find("class=" + p.cls + " hash=" + p.hash) == std::string::npos) { p.note += "\nNOT REPEATABLE: the replay in a fresh process differs"; printf("NOT REPEATABLE: %s: %s\n", unote.empty() ? "the replay in a fresh process differs" : unote.c_str(), outp.c_str()); std::ofstream f(path); f << p.text(); }
        }
        vline = path; rc = 1;
        printf("violated: %s (%s)\n  %s\n  at %s\n  scenario %s, %zu operations, %zu faults, schedule %s with %zu switches\n", o.prop.c_str(), p.cls.c_str(), vmsg.c_str(), where.c_str(), p.scen.c_str(), p.ops.size(), p.faults.size(), p.sched.c_str(), p.sw.size());
        for (auto &x : p.set) printf("  %s=%lld", x.first.c_str(), (long long)x.second);
        printf("\n"); for (auto &op : p.ops) { printf("  op %s", op.name.c_str()); for (auto v : op.a) printf(" %lld", (long long)v); printf("\n"); }
        for (auto &f : p.faults) printf("  fault %s call %lld: %s\n", seam_name[f.seam], (long long)f.at, action_name(f.act).c_str());
        printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), path.c_str());
    }
    // statistics
    PropDef *pd = find_prop(o.prop);
    std::ostringstream j; double wall = mono() - t0;
    j << "{\"variant\":\"" << sut_variant << "\",\"runs\":" << G->runs << ",\"dry_runs\":" << G->dry << ",\"processes\":" << G->children << ",\"wall_s\":" << wall << ",\"search_s\":" << wall_search
      << ",\"runs_planned\":" << o.runs << ",\"sim_seconds\":" << G->sim_ms / 1000.0 << ",\"steps\":" << G->steps << ",\"context_switches\":" << G->nswitch << ",\"crashes\":" << G->crashes << ",\"restarts\":" << G->restarts
      << ",\"parallel_regions\":" << G->teams << ",\"race_checks\":" << G->races << ",\"yield_points\":" << G->yields << ",\"short_reads\":" << G->short_reads << ",\"clock_jumps\":" << G->clockjumps << ",\"runs_with_fault\":" << G->faulted << ",\"runs_with_switch\":" << G->switched
      << ",\"distinct_traces\":" << G->ntrace << ",\"distinct_schedules\":" << G->nsched << ",\"known_hits\":" << G->known;
    j << ",\"faults_injected\":{"; bool c = false; for (int i = 0; i < NSEAM; i++) if (G->seam_faults[i]) { j << (c ? "," : "") << "\"" << seam_name[i] << "\":" << G->seam_faults[i]; c = true; }
    j << "},\"fault_actions\":{"; c = false; static const char *an[] = {"", "EIO", "ENOSPC", "ENOMEM", "EACCES", "EMFILE", "other error"};
    for (int i = 1; i < 64; i++) if (G->act_count[i]) { j << (c ? "," : "") << "\"" << (i <= 6 ? an[i] : action_name(32 - i)) << "\":" << G->act_count[i]; c = true; }
    j << "},\"seam_calls\":{"; c = false; for (int i = 0; i < NSEAM; i++) if (G->seam_calls[i]) { j << (c ? "," : "") << "\"" << seam_name[i] << "\":" << G->seam_calls[i]; c = true; }
    j << "},\"probes\":{"; c = false; for (int i = 0; i < NPROBE; i++) if (G->probe[i].h) { j << (c ? "," : "") << "\"" << jesc(G->probe[i].name) << "\":" << G->probe[i].n; c = true; }
    j << "},\"scenarios\":["; for (size_t i = 0; i < pd->scen.size(); i++) { Scenario *s = find_scenario(pd->scen[i].first); j << (i ? "," : "") << "{\"name\":\"" << s->name << "\",\"runs\":" << G->scen_runs[i] << ",\"real\":\"" << jesc(s->real) << "\",\"stub\":\"" << jesc(s->stub) << "\",\"rule\":\"" << jesc(s->rule) << "\"}"; }
    j << "],\"known\":["; c = false; for (size_t i = 0; i < g_known.size() && i < 64; i++) if (G->knownhit[i]) { j << (c ? "," : "") << "{\"text\":\"" << jesc(g_known[i].text) << "\",\"hits\":" << G->knownhit[i] << "}"; c = true; }
    j << "],\"samples\":["; for (uint64_t i = 0; i < 2 && i < o.runs; i++) { static Plan p; p = make_plan(o.prop, o.seed, o.start + i); std::string t = p.text(); if (t.size() > 1500) t.resize(1500); j << (i ? "," : "") << "\"" << jesc(t) << "\""; }
    j << "],\"violation\":" << (rc ? "\"" + jesc(vcls + ": " + vmsg) + "\"" : "null") << ",\"replay\":" << (rc ? "\"" + jesc(vline) + "\"" : "null") << "}";
    if (!o.out.empty()) { std::ofstream f(o.out); f << j.str() << "\n"; }
    return rc;
}
} // namespace sim

using namespace sim;
int main(int argc, char **argv) {
    // the same addresses in every process: stray values (a pointer left on the stack, say) repeat too
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMNN_NOASLR")) { setenv("SIMNN_NOASLR", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    setenv("TZ", "UTC", 1); tzset();
    Opt o; std::string gen;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); _exit(2); } return argv[++i]; };
        if (a == "--prop") o.prop = nx(); else if (a == "--seed") o.seed = strtoull(nx(), nullptr, 10); else if (a == "--runs") o.runs = strtoull(nx(), nullptr, 10);
        else if (a == "--start") o.start = strtoull(nx(), nullptr, 10);
        else if (a == "--time") o.time = atof(nx()); else if (a == "--workers") o.workers = atoi(nx()); else if (a == "--out") o.out = nx(); else if (a == "--replaydir") o.replaydir = nx();
        else if (a == "--known") o.known = nx(); else if (a == "--replay") o.replay = nx(); else if (a == "--trace") o.trace = true; else if (a == "--hashes") o.hashes = true; else if (a == "--keep-going") o.keepgoing = true;
        else if (a == "--minbudget") o.minbudget = atof(nx()); else if (a == "--maxsteps") g_maxsteps = atoll(nx()); else if (a == "--cpu") g_cpu = atof(nx()); else if (a == "--gen") gen = nx();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    map_regions();
    G = (GStat *)mmap(nullptr, sizeof(GStat), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (o.workers < 1 || o.workers > 64) o.workers = 8;
    if (!o.known.empty()) load_known(o.known.c_str());
    if (!o.replay.empty()) return do_replay(o, argv[0]);
    if (!find_prop(o.prop)) { fprintf(stderr, "unknown property '%s'\n", o.prop.c_str()); return 2; }
    if (!gen.empty()) { Plan p = make_plan(o.prop, o.seed, strtoull(gen.c_str(), nullptr, 10)); printf("%s", p.text().c_str()); return 0; }
    return campaign(o, argv[0]);
}
