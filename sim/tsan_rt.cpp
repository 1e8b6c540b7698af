// Run-time of -fsanitize=thread instrumentation, replaced: every memory access
// of the instrumented code is checked against the heap's shadow and is a place
// where the seeded scheduler may preempt.
#include "internal.h"

namespace sim {
int g_mem_weight = 0;
static const int W_ATOMIC = 25;

static inline __attribute__((always_inline)) void acc(const void* p, size_t n, bool w)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p) - A_BASE;
    if (__builtin_expect(a < A_SIZE, 1)) {
        if (__builtin_expect(g_shadow[a >> 4] != 16 || (a & 15) + n > 16, 0)) heap_check(p, n, w, "access");
    }
    if ((g_countdown -= g_mem_weight) <= 0) point_slow();
}
static inline void atom(const volatile void* p, size_t n, bool w)
{
    heap_check(const_cast<const void*>(p), n, w, "atomic access");
    if ((g_countdown -= W_ATOMIC) <= 0) point_slow();
}
} // namespace sim
using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void* p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void* p) { acc(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { heap_check(p, n, false, "access"); acc(p, 1, false); }
void __tsan_write_range(void* p, size_t n) { heap_check(p, n, true, "access"); acc(p, 1, true); }
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) { acc(p, n, false); }                         \
    void __tsan_write##n(void* p) { acc(p, n, true); }                         \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, false); }               \
    void __tsan_unaligned_write##n(void* p) { acc(p, n, true); }               \
    void __tsan_volatile_read##n(void* p) { acc(p, n, false); }                \
    void __tsan_volatile_write##n(void* p) { acc(p, n, true); }                \
    void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); }      \
    void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)

#define AT(bits, T)                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { atom(a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atom(a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atom(a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atom(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atom(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atom(a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
