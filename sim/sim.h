// Deterministic simulator for simd_neuralnet: common declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG (xoshiro128+-like on splitmix)
uint64_t mix(uint64_t a, uint64_t b = 0x9e3779b97f4a7c15ull);
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed, 0x51ed2701)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }   // inclusive
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    double sym() { return 2 * unit() - 1; }
    double normal();
    template<class T, size_t N> const T &pick(const T (&a)[N]) { return a[below(N)]; }
};

// ---------------------------------------------------------------- seams and faults
enum Seam { SE_MALLOC, SE_OPEN, SE_READ, SE_WRITE, SE_CLOSE, SE_RENAME, SE_REMOVE, SE_STAT, SE_SEEK, SE_TRUNC,
            SE_MMAP, SE_DLOPEN, SE_DLSYM, SE_TTY, SE_STDOUT, SE_TIME, SE_RAND, SE_DISK /* any disk operation */, NSEAM };
extern const char *seam_name[NSEAM];
// fault actions: >0 errno; <0 as below
enum { FA_CRASH = -1, FA_CRASH_AFTER = -2, FA_TORN_CRASH = -3, FA_SHORT = -4, FA_TORN_ERR = -5 };
std::string action_name(int a);
int action_code(const std::string &s);

struct Op { std::string name; std::vector<int64_t> a; int64_t at(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; } };
struct Fault { int seam; int64_t at; int act; int64_t arg; int persist; };   // persist: 0 once, 1 from then on, n>1: n times
struct Switch { uint32_t inc; uint64_t step; int tid; };

struct Plan {
    std::string prop, scen, variant, cls, hash, note;
    uint64_t seed = 0;
    std::map<std::string, int64_t> set;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::string sched = "run";          // run | rand | pct | rr | list
    uint64_t schedseed = 0; int64_t schedarg = 0;
    std::vector<Switch> sw;
    int64_t get(const char *k, int64_t d = 0) const { auto i = set.find(k); return i == set.end() ? d : i->second; }
    bool has(const char *k) const { return set.count(k) != 0; }
    std::string text() const;
    bool parse(const std::string &txt, std::string *err);
};
extern Plan *P;                         // the plan being executed

// ---------------------------------------------------------------- shared state of one run (survives simulated crashes)
constexpr int MAXFILES = 48;
constexpr int MAXNAMES = 64;
constexpr size_t FILECAP = 1 << 18;
struct Inode { int used; int links; int opens; size_t size; unsigned mode; };
struct DirEnt { int used; int ino; int isdir; char name[200]; };
struct Disk { Inode ino[MAXFILES]; DirEnt de[MAXNAMES]; size_t total; uint64_t ntmp; int64_t cap; };
constexpr int MAXSW = 60000;
constexpr int NPROBE = 96;
enum { RS_NONE, RS_OK, RS_VIOL, RS_ERR };
struct Result {
    int status; char cls[96]; char msg[2048];
    uint64_t hash, sched_hash, steps, nswitch, nrec; int overflow;
    uint64_t seam_calls[NSEAM], seam_faults[NSEAM], crashes, races_checked;
    uint64_t threads_max, teams;
    uint64_t probe[NPROBE];
    double sim_seconds;
    int incarnation; int cur_op; uint64_t pc1, pc2; int yields;
    uint64_t shortreads, clockjumps;
};
struct Shared {
    Result res;
    Disk disk;
    Switch sw[MAXSW];
    int fault_fired[64];
    int64_t clock_ns;                  // simulated wall clock
    uint64_t rand_state; uint64_t rand_calls;
    char outbuf[1 << 20]; size_t outlen;
    char errbuf[1 << 20]; size_t errlen;
    size_t outpos, errpos;             // scenario read marks
    alignas(64) unsigned char model[1 << 20];
    unsigned char filedata[MAXFILES][FILECAP];
};
extern Shared *S;

// ---------------------------------------------------------------- run control (child side)
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void die_crash();          // simulated process death; state in S->disk survives
[[noreturn]] void finish_ok();
[[noreturn]] void restart_clean();      // simulated normal exit followed by a new process
void ev(const char *tag, uint64_t a = 0, uint64_t b = 0);   // event into the trace hash
void evs(const char *tag, const char *str);
extern bool g_on;                       // simulation active in this process
extern uint64_t g_step;
bool tracing();

// SUT mode: allocations, I/O, clock ... of the current simulated thread belong to the simulated process
int sut_enter(); void sut_leave(int);
struct SutScope { int o; SutScope() : o(sut_enter()) {} ~SutScope() { sut_leave(o); } };
struct HarnessScope { int o; HarnessScope(); ~HarnessScope(); };
#define SUT(...) ({ sim::SutScope sut_scope_; __VA_ARGS__; })

// probes: "rare condition was hit" counters with names
int probe_id(const char *name);
void probe_hit(int id);
#define PROBE(name) do { static int pid_ = sim::probe_id(name); sim::probe_hit(pid_); } while (0)
extern std::vector<std::string> probe_names;

// ---------------------------------------------------------------- arena
void arena_init(uint64_t seed, int fill, int reuse);
void *arena_alloc(size_t n, size_t align, size_t misalign /* bytes past alignment */, bool zero);
void arena_free(void *p, const char *who);
bool in_arena(const void *p);
size_t arena_live_bytes(); size_t arena_live_count();
bool arena_range_ok(const void *p, size_t n);
void arena_check_access(uintptr_t a, size_t n, bool w, uintptr_t pc);
struct AllocInfo { uintptr_t p; size_t n; int live; uint64_t serial; int sut; size_t cap; };
void arena_live_list(std::vector<AllocInfo> &v, uint64_t since_serial);
uint64_t arena_serial();
template<class T> T *galloc(size_t n, size_t align = 64, size_t misalign = 0) {   // guarded caller buffer
    return (T *)arena_alloc(n * sizeof(T), align, misalign, false); }
void gfree(void *p);
std::vector<uint8_t> arena_snapshot_range(const void *p, size_t n);

// ---------------------------------------------------------------- faults
struct NoFaults { int64_t cap; NoFaults(); ~NoFaults(); };     // the checks of a scenario itself meet no faults
uint64_t faults_so_far();                // faults injected so far in this run
int fault(Seam s, int64_t *arg = nullptr);   // counts the call; returns 0 or the action; handles FA_CRASH itself
void disk_op_fault_pre();

// ---------------------------------------------------------------- disk helpers for scenarios (harness side)
void disk_put(const char *name, const void *data, size_t n);
bool disk_get(const char *name, std::vector<uint8_t> &out);
bool disk_exists(const char *name);
void disk_del(const char *name);
void disk_mkdir(const char *name);
std::vector<std::string> disk_list();
int open_handles();                     // descriptors and mappings the simulated process holds
std::string open_handles_desc();
void disk_crash_cleanup();              // after a process death: descriptors vanish

// ---------------------------------------------------------------- captured output
std::string take_stdout(); std::string take_stderr();    // since last take
void out_mark();

// ---------------------------------------------------------------- env
struct FakeLib { const char *name; std::map<std::string, void *> syms; };
void register_lib(const char *name, const std::map<std::string, void *> &syms);
int lib_refs(const char *name);         // open handles on the library
int lib_refs_total();
bool lib_loaded(const char *name);
void run_atexit();
int64_t now_seconds();
void clock_jump(int64_t seconds); void clock_stop(bool stopped);
void set_tty(int is_tty, int cols);

// ---------------------------------------------------------------- scheduler
void sched_init();
int spawn(std::function<void()> f, const char *name);    // simulated caller thread
void join_all();                        // join every thread spawned by the harness
void yield_point(const char *kind);
void run_main(std::function<void()> f); // run f as simulated thread 0; returns when it is done
int cur_tid();
int live_threads();
void harness_write(const void *p, size_t n);             // the same for a write
void harness_read(const void *p, size_t n);              // access by harness code, for the race detector
void mark_clean(const void *p, size_t n);                // forget race history of a range
void acquire_all();

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char *name;
    void (*gen)(Rng &r, Plan &p);       // fills the plan (parameters, operations)
    void (*run)();                      // executes P; continues after a simulated restart
    void (*gen_faults)(Rng &r, Plan &p, const Result &dry);   // may be null: no dry run
    const char *real; const char *stub; const char *rule;
    std::vector<std::pair<const char *, int64_t>> shrink;     // parameter, minimum
};
void gen_sched(Rng &r, Plan &p, uint64_t est);
Scenario *find_scenario(const std::string &name);
struct PropDef { const char *prop; std::vector<std::pair<const char *, double>> scen; };
PropDef *find_prop(const std::string &p);

} // namespace sim
