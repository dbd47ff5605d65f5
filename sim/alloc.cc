// Simulated heap: deterministic arena, bounds/use-after-free state, allocation faults, ledger.
#include <unistd.h>
#include "sim.h"
#include "internal.h"
#include <sys/mman.h>
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <new>

extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" __attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);

extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
             void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }

namespace sim {

static uint8_t *g_state;        // u16 per 16 bytes: one bit per byte
static uintptr_t g_top, g_poisoned_to;
static std::vector<AllocInfo> *g_blocks;
static Rng g_arng(1);
static int g_fill, g_reuse;                 // g_reuse: percentage of allocations that take the address freed last, if it fits
static std::vector<uintptr_t> *g_freed;
static AllocInfo *g_last;
static uint64_t g_serial;
static size_t g_live_bytes, g_live_count;

bool in_arena(const void *p) { uintptr_t a = (uintptr_t)p; return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE; }

static void map_fixed(uintptr_t base, size_t size, const char *what) {
    void *p = mmap((void *)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)base) { fprintf(stderr, "simulator: cannot map %s at fixed address\n", what); _exit(99); }
}

void map_regions() {
    map_fixed(ARENA_BASE, ARENA_SIZE, "arena");
    map_fixed(STACK_BASE, STACK_TOTAL, "stacks");
    g_state = (uint8_t *)ASTATE_BASE;
    map_fixed(ASTATE_BASE, ARENA_SIZE / 8, "arena state");
    map_fixed(RSHADOW_BASE, (ARENA_SIZE + STACK_TOTAL) * 4, "race shadow");
}

void arena_init(uint64_t seed, int fill, int reuse) {
    g_top = ARENA_BASE + 4096;
    if (!g_blocks) g_blocks = new std::vector<AllocInfo>;
    g_blocks->clear(); if (!g_freed) g_freed = new std::vector<uintptr_t>; g_freed->clear(); g_reuse = reuse;
    g_blocks->reserve(4096);
    g_arng = Rng(mix(seed, 77));
    g_fill = fill;
    g_serial = 0; g_live_bytes = g_live_count = 0;
    // the whole arena is poisoned lazily: for ASan, poison ahead of the bump pointer in chunks
    if (__asan_poison_memory_region) __asan_poison_memory_region((void *)ARENA_BASE, 1 << 22);
    g_poisoned_to = ARENA_BASE + (1 << 22);
}

static inline uint16_t *st(uintptr_t a) { return (uint16_t *)(ASTATE_BASE + ((a - ARENA_BASE) >> 4) * 2); }

static void set_state(uintptr_t a, size_t n, bool ok) {
    while (n) {
        unsigned off = a & 15, k = 16 - off; if (k > n) k = n;
        uint16_t m = (uint16_t)(((1u << k) - 1) << off);
        if (ok) *st(a) |= m; else *st(a) &= ~m;
        a += k; n -= k;
    }
}

bool arena_range_ok(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    while (n) {
        if (!in_arena((void *)a)) return false;
        unsigned off = a & 15, k = 16 - off; if (k > n) k = n;
        uint16_t m = (uint16_t)(((1u << k) - 1) << off);
        if ((*st(a) & m) != m) return false;
        a += k; n -= k;
    }
    return true;
}

static AllocInfo *find_block(uintptr_t a) {     // the block containing or preceding a
    auto &v = *g_blocks;
    auto it = std::upper_bound(v.begin(), v.end(), a, [](uintptr_t x, const AllocInfo &b) { return x < b.p; });
    if (it == v.begin()) return nullptr;
    return &*(it - 1);
}

void arena_check_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (n <= 16) {      // fast path: at most two granules
        unsigned off = a & 15;
        if (off + n <= 16) {
            uint16_t m = (uint16_t)(((1u << n) - 1) << off);
            if (__builtin_expect((*st(a) & m) == m, 1)) return;
        } else if (arena_range_ok((void *)a, n)) return;
    } else if (arena_range_ok((void *)a, n)) return;
    AllocInfo *b = find_block(a + n - 1);
    S->res.pc1 = pc;
    if (b && !b->live && a < b->p + b->n)
        violation("heap-use-after-free", "%s of %zu bytes, %zu bytes into a freed block of %zu bytes", w ? "write" : "read", n, (size_t)(a - b->p), b->n);
    violation("heap-out-of-bounds", "%s of %zu bytes at offset %lld of a block of %zu bytes", w ? "write" : "read", n,
              b ? (long long)(a - b->p) : -1ll, b ? b->n : 0);
}

void *arena_alloc(size_t n, size_t align, size_t misalign, bool zero) {
    HarnessScope hs;
    if (align < 16) align = 16;
    uintptr_t p = 0;
    if (g_reuse && g_arng.below(100) < (uint64_t)g_reuse) for (size_t i = g_freed->size(), k = 0; i-- && k < 12 && !p; k++) {
        AllocInfo *b = find_block((*g_freed)[i]); if (!b || b->p != (*g_freed)[i]) continue;
        if (b->cap < n || b->cap > 4 * n + 64 || b->p % align || (misalign != (size_t)-1 && misalign)) continue;
        p = b->p; g_freed->erase(g_freed->begin() + i); b->n = n; b->live = 1; b->serial = ++g_serial; b->sut = 0; g_last = b;
        if (__asan_unpoison_memory_region) __asan_unpoison_memory_region((void *)p, n);
        set_state(p, n, true); g_live_bytes += n; g_live_count++; PROBE("an allocation takes the address of a freed block");
    }
    if (!p) {
    size_t red = 32 + 16 * g_arng.below(5);
    p = g_top + red;
    p = (p + align - 1) / align * align;
    if (misalign == (size_t)-1) misalign = 16 * g_arng.below(8);     // any legal 16-byte placement
    p += misalign;
    size_t nn = n ? n : 1;
    if (p + nn + 4096 > ARENA_BASE + ARENA_SIZE) harness_error("simulated heap exhausted (%zu)", n);
    if (__asan_poison_memory_region) {
        if (p + nn + 65536 > g_poisoned_to) { uintptr_t to = p + nn + (1 << 22); if (to > ARENA_BASE + ARENA_SIZE) to = ARENA_BASE + ARENA_SIZE;
            __asan_poison_memory_region((void *)g_poisoned_to, to - g_poisoned_to); g_poisoned_to = to; }
        __asan_unpoison_memory_region((void *)p, n);
    }
    set_state(p, n, true);
    g_top = (p + nn + 32 + 15) & ~(uintptr_t)15;
    g_blocks->push_back({p, n, 1, ++g_serial, 0, n}); g_last = &g_blocks->back();
    g_live_bytes += n; g_live_count++;
    }
    if (zero) memset((void *)p, 0, n);
    else switch (g_fill) {
        case 0: break;                                              // fresh zero pages
        case 1: memset((void *)p, 0xff, n); break;                  // NaN
        case 2: memset((void *)p, 0xa5, n); break;
        default: for (size_t i = 0; i + 4 <= n; i += 4) { float f = (float)(g_arng.sym() * 1e3); memcpy((char *)p + i, &f, 4); }
    }
    mark_clean((void *)p, n);
    return (void *)p;
}

void arena_free(void *p, const char *who) {
    HarnessScope hs;
    uintptr_t a = (uintptr_t)p;
    AllocInfo *b = find_block(a);
    if (!b || b->p != a) violation("bad-free", "%s of a pointer that was never allocated (inside a block: %d)", who, b && a < b->p + b->n);
    if (!b->live) violation("double-free", "%s of a block of %zu bytes already freed", who, b->n);
    b->live = 0; g_live_bytes -= b->n; g_live_count--;
    set_state(a, b->n, false); if (g_reuse) { g_freed->push_back(a); if (g_freed->size() > 64) g_freed->erase(g_freed->begin()); }
    if (__asan_poison_memory_region) __asan_poison_memory_region((void *)a, b->n);
}
void gfree(void *p) { if (p) arena_free(p, "harness free"); }
size_t arena_live_bytes() { return g_live_bytes; }
size_t arena_live_count() { return g_live_count; }
uint64_t arena_serial() { return g_serial; }
void arena_live_list(std::vector<AllocInfo> &v, uint64_t since) {
    for (auto &b : *g_blocks) if (b.live && b.serial > since && b.sut == 1) v.push_back(b);
}

static void *sut_alloc(size_t n, size_t align, bool zero) {
    yield_point("alloc");
    int f = fault(SE_MALLOC);
    ev("malloc", n, f);
    if (f > 0) { errno = ENOMEM; return nullptr; }
    if (n > ((size_t)48 << 20)) { PROBE("huge allocation refused"); errno = ENOMEM; return nullptr; }
    void *p = arena_alloc(n, align ? align : 16, align ? 0 : (size_t)-1, zero);
    g_last->sut = cur && cur->zip ? 2 : 1;
    return p;
}
static void sut_free(void *p) { if (cur_sut()) { ev("free"); } race_free(p); arena_free(p, "free"); }
static size_t block_size(void *p) { AllocInfo *b = find_block((uintptr_t)p); if (!b || b->p != (uintptr_t)p || !b->live)
        violation("bad-free", "realloc of a pointer that is not a live block"); return b->n; }
} // namespace sim

using namespace sim;
extern "C" {
void *malloc(size_t n) { if (!cur_sut()) return __libc_malloc(n); return sut_alloc(n, 0, false); }
void free(void *p) { if (!p) return; if (in_arena(p)) { int e = errno; sut_free(p); errno = e; } else __libc_free(p); }
void *calloc(size_t a, size_t b) { if (!cur_sut()) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sut_alloc(n, 0, true); }
void *realloc(void *p, size_t n) {
    if (p && in_arena(p)) {
        if (n == 0) { sut_free(p); return nullptr; }
        void *q;
        if (cur_sut()) q = sut_alloc(n, 0, false); else q = arena_alloc(n, 16, 0, false);
        if (!q) return nullptr;
        size_t o = block_size(p); memcpy(q, p, o < n ? o : n); sut_free(p); return q;
    }
    if (!cur_sut()) return __libc_realloc(p, n);
    if (p) { void *q = sut_alloc(n, 0, false); if (!q) return nullptr;  /* block from before the simulation */
        memcpy(q, p, n); return q; }
    return sut_alloc(n, 0, false);
}
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void *memalign(size_t al, size_t n) { if (!cur_sut()) return __libc_memalign(al, n); return sut_alloc(n, al, false); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void *valloc(size_t n) { return memalign(4096, n); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { if (p && in_arena(p)) return block_size(p); return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
}
void *operator new(size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { __libc_free(p); }
void operator delete[](void *p) noexcept { __libc_free(p); }
void operator delete(void *p, size_t) noexcept { __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { __libc_free(p); }
