// C21 run-time: the library is compiled with basic-block and memory-access instrumentation; these hooks fold every
// program point and every address of a call into a hash, or record them to locate the first difference.
#include "ct_rt.hpp"
#include <cstring>
namespace ct {
uint64_t h, n; bool on = false; std::vector<uint64_t> *rec = nullptr; extern "C" char __executable_start; uint8_t *arena, *bump; size_t arena_n;
static inline void ev(uint64_t x) { if (!on) return; n++; h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 31; if (rec) { on = false; rec->push_back(x); on = true; } }
void start() { h = 1; n = 0; bump = arena; on = true; } void stop() { on = false; }
}
using ct::ev;
extern "C" {
void __sanitizer_cov_trace_pc() { ev((uint64_t)__builtin_return_address(0) - (uint64_t)&ct::__executable_start | 1ull << 63); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define A(p, n, w) ev((uint64_t)(p) << 6 | (uint64_t)(w) << 5 | n)
#define RW(n) void __tsan_read##n(void *p) { A(p, n, 0); } void __tsan_write##n(void *p) { A(p, n, 1); } void __tsan_unaligned_read##n(void *p) { A(p, n, 0); } void __tsan_unaligned_write##n(void *p) { A(p, n, 1); } void __tsan_volatile_read##n(void *p) { A(p, n, 0); } void __tsan_volatile_write##n(void *p) { A(p, n, 1); } void __tsan_unaligned_volatile_read##n(void *p) { A(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { A(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int) { ev((uint64_t)a); return __atomic_load_n(a, 5); } void __tsan_atomic##b##_store(volatile T *a, T v, int) { ev((uint64_t)a); __atomic_store_n(a, v, 5); } T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_fetch_add(a, v, 5); } T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_fetch_and(a, v, 5); } T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { ev((uint64_t)a); return __atomic_fetch_xor(a, v, 5); } int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { ev((uint64_t)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { ev((uint64_t)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { ev((uint64_t)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void __tsan_read_range(void *p, size_t n) { ev((uint64_t)p); ev(n); } void __tsan_write_range(void *p, size_t n) { ev((uint64_t)p); ev(n); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { ev((uint64_t)d); ev((uint64_t)s); ev(n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { ev((uint64_t)d); ev((uint64_t)s); ev(n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { ev((uint64_t)d); ev(n); return __real_memset(d, c, n); }
// memcmp stops at the first difference: its running time is part of the trace
int __wrap_memcmp(const void *a, const void *b, size_t n) { ev((uint64_t)a); ev((uint64_t)b); size_t k = 0; while (ct::on && k < n && ((const uint8_t *)a)[k] == ((const uint8_t *)b)[k]) k++; ev(k); return __real_memcmp(a, b, n); }
int __real_strncmp(const char *, const char *, size_t); int __wrap_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (ct::on && k < n && a[k] == b[k] && a[k]) k++; ev(k); return __real_strncmp(a, b, n); }
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static bool mine(void *p) { return (uint8_t *)p >= ct::arena && (uint8_t *)p < ct::arena + ct::arena_n; }
void *__wrap_malloc(size_t n) { if (!ct::on) return __real_malloc(n); ev(n); uint8_t *p = ct::bump; ct::bump += (n + 31) & ~(size_t)15; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!ct::on) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); __real_memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) { if (!ct::on) return __real_realloc(o, n); void *p = __wrap_malloc(n); if (o) __real_memcpy(p, o, n); return p; }
void __wrap_free(void *p) { if (ct::on) ev((uint64_t)p); if (!mine(p)) __real_free(p); }
}
