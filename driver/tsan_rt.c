/* Runtime of the instrumented build: every access of the allocator to shared memory, every atomic operation
 * and every lock call arrives here. */
#include "conc.h"
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *a) { on_access(a, n, 0, RA); } \
    void __tsan_write##n(void *a) { on_access(a, n, 1, RA); } \
    void __tsan_unaligned_read##n(void *a) { on_access(a, n, 0, RA); } \
    void __tsan_unaligned_write##n(void *a) { on_access(a, n, 1, RA); } \
    void __tsan_volatile_read##n(void *a) { on_access(a, n, 0, RA); } \
    void __tsan_volatile_write##n(void *a) { on_access(a, n, 1, RA); } \
    void __tsan_unaligned_volatile_read##n(void *a) { on_access(a, n, 0, RA); } \
    void __tsan_unaligned_volatile_write##n(void *a) { on_access(a, n, 1, RA); } \
    void __tsan_read_write##n(void *a) { on_access(a, n, 0, RA); on_access(a, n, 1, RA); } \
    void __tsan_unaligned_read_write##n(void *a) { on_access(a, n, 0, RA); on_access(a, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { on_access(a, n, 0, RA); }
void __tsan_write_range(void *a, long n) { on_access(a, n, 1, RA); }
void *__tsan_memset(void *d, int c, unsigned long n) { on_access(d, n, 1, RA); return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { on_access((void *) s, n, 0, RA); on_access(d, n, 1, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { on_access((void *) s, n, 0, RA); on_access(d, n, 1, RA); return memmove(d, s, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int o) { at_before((void *) a); T v = *a; at_load((void *) a, v); return v; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int o) { at_before((void *) a); *a = v; at_store((void *) a, v); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = v; at_xchg((void *) a, x, v); return x; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = x + v; at_rmw((void *) a); return x; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = x - v; at_rmw((void *) a); return x; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = x & v; at_rmw((void *) a); return x; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = x | v; at_rmw((void *) a); return x; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o) { at_before((void *) a); T x = *a; *a = x ^ v; at_rmw((void *) a); return x; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int f) { at_before((void *) a); T x = *a; if(x == *e) { *a = v; at_xchg((void *) a, x, v); return 1; } at_fail((void *) a); *e = x; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, o, f); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int o, int f) { at_before((void *) a); T x = *a; if(x == e) { *a = v; at_xchg((void *) a, x, v); } else at_fail((void *) a); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}
