#pragma once
#include "sim.h"
namespace sim {
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 256ull << 20;
constexpr int MAXT = 48;
constexpr size_t STACK_SLOT = 8ull << 20;         // per thread: guard + stack, as large as the usual default
constexpr uintptr_t STACK_BASE = ARENA_BASE + ARENA_SIZE;
constexpr size_t STACK_TOTAL = MAXT * STACK_SLOT;
constexpr uintptr_t ASTATE_BASE = 0x210000000000ull;
constexpr uintptr_t RSHADOW_BASE = 0x220000000000ull;
void map_regions();
struct Team;
struct Thr {
    int id; int futex; int st; int sut;
    std::function<void()> *f; void (*fn)(void *); void *arg;
    Team *team; int tnum; unsigned wsno;
    uint64_t vc[MAXT];
    uint64_t prio;
    int joinable, isomp, created;
    uint64_t lstep;
    const void *waiting;
    unsigned long pth;
    void *task; int kids0; uint64_t ordno; void *ordwork; int zip;                                          // inside a libzip call
};
extern Thr *cur;
static inline int cur_sut() { return cur && cur->sut; }
void race_free(void *p);
int zip_handles(); std::string zip_handles_desc();
void env_init();
void disk_init();
void env_reset(bool first);
void redirect_stdio();
void seam_event(const char *tag, uint64_t a, uint64_t b);
}
