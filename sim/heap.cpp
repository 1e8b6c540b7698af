// Heap of the simulated process: deterministic addresses, quarantine on free,
// and a shadow map that the memory-access hooks check.
#include "sim.h"
#include "internal.h"

#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <new>

namespace sim {
int g_arena = AR_D;
const uintptr_t A_BASE = 0x100000000000ULL;
const uintptr_t A_SIZE = 0x100000000ULL; // 4 GB
static const uintptr_t D_BASE = 0x080000000000ULL;
static const uintptr_t D_SIZE = 0x80000000ULL;
static const uintptr_t S_BASE = 0x200000000000ULL;
static const uintptr_t S_SIZE = 0x40000000ULL;
static const uintptr_t SHADOW_BASE = 0x300000000000ULL;
uint8_t* g_shadow = reinterpret_cast<uint8_t*>(SHADOW_BASE);
uint32_t g_alloc_fail_p = 0;

static const uint8_t SH_FREED = 0xFD;
static const uint32_t MAGIC = 0x5EEDB10C;
static const uint32_t MAGIC_FREE = 0xDEADB10C;

struct Hdr
{ // 32 bytes before the payload
    uint64_t size;
    uint32_t cls;
    uint32_t magic;
    uint64_t base; // start of the underlying block
    uint64_t next; // free list / quarantine link
};
static_assert(sizeof(Hdr) == 32, "");

static const int NCLS = 160;

struct ArenaState
{
    uintptr_t bump, end;
    uint64_t  freelist[NCLS];
    uint64_t  q_head, q_tail, q_bytes;
    uint64_t  live_bytes, live_blocks;
};
static ArenaState  st_d, st_a;
static ArenaState* st_s = nullptr;
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;

static void* map_at(uintptr_t base, size_t size, int flags)
{
    void* p = mmap_real(reinterpret_cast<void*>(base), size, PROT_READ | PROT_WRITE,
                        flags | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) {
        static const char m[] = "sim: cannot map arena\n";
        ssize_t r = syscall_write(2, m, sizeof(m) - 1); (void)r;
        _exit(99);
    }
    return p;
}

static bool d_init = false;
static void init_d()
{
    if (d_init) return;
    d_init = true;
    map_at(D_BASE, D_SIZE, MAP_PRIVATE);
    st_d.bump = D_BASE + 64;
    st_d.end  = D_BASE + D_SIZE;
    map_at(A_BASE, A_SIZE, MAP_PRIVATE);
    map_at(SHADOW_BASE, A_SIZE >> 4, MAP_PRIVATE);
    st_a.bump = A_BASE + 4096;
    st_a.end  = A_BASE + A_SIZE;
}

void heap_begin_run()
{
    init_d();
    map_at(S_BASE, S_SIZE, MAP_SHARED);
    st_s       = reinterpret_cast<ArenaState*>(S_BASE);
    st_s->bump = S_BASE + ((sizeof(ArenaState) + 63) & ~63ULL);
    st_s->end  = S_BASE + S_SIZE;
}

size_t heap_live_bytes() { return st_a.live_bytes; }
size_t heap_live_blocks() { return st_a.live_blocks; }

// class sizes: multiples of 16 to 1024, then 4 steps per power of two
static inline uint32_t cls_of(uint64_t n)
{
    if (n <= 1024) return static_cast<uint32_t>((n + 15) >> 4); // 1..64
    int      lg  = 63 - __builtin_clzll(n - 1);                 // 2^lg <= n-1
    uint64_t q   = (n - 1 - (1ULL << lg)) >> (lg - 2);          // 0..3
    return 64 + 1 + static_cast<uint32_t>((lg - 10) * 4 + q);
}
static inline uint64_t cls_size(uint32_t c)
{
    if (c <= 64) return c * 16ULL;
    c -= 65;
    int lg = 10 + c / 4;
    return (1ULL << lg) + ((c % 4) + 1ULL) * (1ULL << (lg - 2));
}

static inline ArenaState* arena_of(const void* p, int& id)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a - A_BASE < A_SIZE) { id = AR_A; return &st_a; }
    if (a - S_BASE < S_SIZE) { id = AR_S; return st_s; }
    if (a - D_BASE < D_SIZE) { id = AR_D; return &st_d; }
    id = -1;
    return nullptr;
}

static void shadow_set(uintptr_t payload, uint64_t size)
{
    uint8_t* s = g_shadow + ((payload - A_BASE) >> 4);
    uint64_t g = size >> 4;
    memset(s, 16, g);
    if (size & 15) s[g] = static_cast<uint8_t>(size & 15);
}
static void shadow_free(uintptr_t payload, uint64_t size)
{
    uint8_t* s = g_shadow + ((payload - A_BASE) >> 4);
    memset(s, SH_FREED, (size + 15) >> 4);
}

static void* do_alloc(size_t size, size_t align, bool zero)
{
    while (g_lock.test_and_set(std::memory_order_acquire)) {}
    init_d();
    int         id = g_arena;
    ArenaState* st = id == AR_A ? &st_a : id == AR_S ? st_s : &st_d;
    if (size > (1ULL << 30)) { g_lock.clear(); return nullptr; }
    uint64_t want = size ? size : 1;
    // 16 spare bytes after the payload serve as a red zone
    uint64_t  total = want + sizeof(Hdr) + 16 + (align > 16 ? align : 0);
    uint32_t  c     = cls_of(total);
    uint64_t  csz   = cls_size(c);
    uintptr_t base;
    bool      fresh = false;
    if (st->freelist[c]) {
        base            = st->freelist[c];
        st->freelist[c] = *reinterpret_cast<uint64_t*>(base);
    } else {
        base = (st->bump + 15) & ~15ULL;
        if (base + csz > st->end) { g_lock.clear(); return nullptr; }
        st->bump = base + csz;
        fresh    = true;
    }
    uintptr_t payload = base + sizeof(Hdr);
    if (align > 16) payload = (payload + align - 1) & ~(uintptr_t)(align - 1);
    Hdr* h   = reinterpret_cast<Hdr*>(payload) - 1;
    h->size  = size;
    h->cls   = c;
    h->magic = MAGIC;
    h->base  = base;
    h->next  = 0;
    st->live_bytes += size;
    st->live_blocks++;
    if (id == AR_A) shadow_set(payload, want);
    g_lock.clear(std::memory_order_release);
    if (zero) { if (!fresh) memset(reinterpret_cast<void*>(payload), 0, size); }
    else if (id == AR_A) {
        // uninitialised memory has fixed, recognisable contents
        memset(reinterpret_cast<void*>(payload), 0xCB, size < 256 ? size : 256);
    }
    return reinterpret_cast<void*>(payload);
}

static void do_free(void* p)
{
    if (!p) return;
    int         id;
    ArenaState* st = arena_of(p, id);
    if (!st) return; // not ours
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    if (h->magic != MAGIC) {
        if (id == AR_A) heap_report(p, 0, true, h->magic == MAGIC_FREE ? "double free" : "invalid free");
        static const char m[] = "sim: bad free in simulator\n";
        ssize_t r = syscall_write(2, m, sizeof(m) - 1); (void)r;
        abort();
    }
    while (g_lock.test_and_set(std::memory_order_acquire)) {}
    h->magic = MAGIC_FREE;
    st->live_bytes -= h->size;
    st->live_blocks--;
    uint64_t base = h->base;
    uint32_t c    = h->cls;
    if (id == AR_A) {
        shadow_free(reinterpret_cast<uintptr_t>(p), h->size ? h->size : 1);
        memset(p, 0xDD, h->size < 256 ? h->size : 256);
        // quarantine, FIFO
        h->next = 0;
        if (st->q_tail) (reinterpret_cast<Hdr*>(st->q_tail))->next = reinterpret_cast<uint64_t>(h);
        else st->q_head = reinterpret_cast<uint64_t>(h);
        st->q_tail = reinterpret_cast<uint64_t>(h);
        st->q_bytes += cls_size(c);
        while (st->q_bytes > (8ULL << 20)) {
            Hdr* o = reinterpret_cast<Hdr*>(st->q_head);
            st->q_head = o->next;
            if (!st->q_head) st->q_tail = 0;
            st->q_bytes -= cls_size(o->cls);
            uint64_t ob = o->base;
            uint32_t oc = o->cls;
            // the block goes back: its shadow becomes "unallocated"
            uintptr_t pl = reinterpret_cast<uintptr_t>(o + 1);
            memset(g_shadow + ((pl - A_BASE) >> 4), 0, ((o->size ? o->size : 1) + 15) >> 4);
            *reinterpret_cast<uint64_t*>(ob) = st->freelist[oc];
            st->freelist[oc] = ob;
        }
    } else {
        *reinterpret_cast<uint64_t*>(base) = st->freelist[c];
        st->freelist[c] = base;
    }
    g_lock.clear(std::memory_order_release);
}

const char* heap_describe(const void* p, char* buf, size_t n)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    snprintf(buf, n, "heap+0x%lx", (unsigned long)(a - A_BASE));
    return buf;
}

[[noreturn]] void heap_report(const void* p, size_t n, bool write, const char* what)
{
    Scope s(AR_S);
    const char* kind = what;
    char        tmp[64];
    if (n) {
        uintptr_t a  = reinterpret_cast<uintptr_t>(p);
        uint8_t   sh = g_shadow[(a - A_BASE) >> 4];
        uint8_t   s2 = g_shadow[(a + n - 1 - A_BASE) >> 4];
        snprintf(tmp, sizeof(tmp), "%s", (sh == SH_FREED || s2 == SH_FREED) ? "use after free" : "out-of-bounds access");
        kind = tmp;
    }
    g_crash_pc_note();
    fail("memory-error", "%s: %s of %zu bytes (%s)", kind, write ? "write" : "read", n, what);
}

void heap_check(const void* p, size_t n, bool write, const char* what)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a - A_BASE >= A_SIZE || n == 0 || !g_active) return;
    uintptr_t g0 = (a - A_BASE) >> 4, g1 = (a + n - 1 - A_BASE) >> 4;
    for (uintptr_t g = g0; g <= g1; g++) {
        uint8_t s = g_shadow[g];
        if (s == 16) continue;
        if (s == 0 || s == SH_FREED) heap_report(p, n, write, what);
        // partial granule: must be the last one
        if (g != g1 || ((a + n - 1) & 15) >= s) heap_report(p, n, write, what);
    }
}
} // namespace sim

using namespace sim;

extern "C" {
void* malloc(size_t n) { return do_alloc(n, 16, false); }
void  free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) return nullptr;
    return do_alloc(a * b, 16, true);
}
void* realloc(void* p, size_t n)
{
    if (!p) return do_alloc(n, 16, false);
    if (n == 0) { do_free(p); return nullptr; }
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    int  id;
    arena_of(p, id);
    int old = g_arena;
    if (id >= 0) g_arena = id;
    void* q = do_alloc(n, 16, false);
    g_arena = old;
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    do_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, false); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, false); }
int   posix_memalign(void** out, size_t al, size_t n)
{
    if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
    if (g_alloc_fail_p && g_arena == AR_A && sim_active()
        && chance(T_FAULT, g_alloc_fail_p, 10000)) {
        fault_fired("alloc_enomem");
        return ENOMEM;
    }
    void* p = do_alloc(n, al, false);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* valloc(size_t n) { return do_alloc(n, 4096, false); }
size_t malloc_usable_size(void* p)
{
    if (!p) return 0;
    return (reinterpret_cast<Hdr*>(p) - 1)->size;
}
}
// operator new/delete are libstdc++'s, on top of malloc/free.
