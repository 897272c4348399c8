#include "mt_rt.hpp"
#include <algorithm>
#include <cstring>
#include <unordered_set>
namespace mt {
thread_local Thread *self = nullptr; static std::unordered_set<uintptr_t> conflict;
void add_conflict(uintptr_t a) { conflict.insert(a); } bool all_points = false;
struct Ro { uintptr_t lo, hi; }; static Ro ro[64]; static int nro = 0;
static void load_maps() __attribute__((constructor));
static void load_maps() { FILE *f = fopen("/proc/self/maps", "r"); char l[600]; while (f && fgets(l, sizeof l, f)) { unsigned long a, b; char p[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, p) == 3 && p[1] == '-' && nro < 64) ro[nro++] = {a, b}; } if (f) fclose(f); }
static inline bool readonly_mem(uintptr_t a) { for (int i = 0; i < nro; i++) if (a >= ro[i].lo && a < ro[i].hi) return true; return false; }
void yield_now() { Thread *t = self, *o = t->other; if (t->ctl) { sem_post(t->ctl); while (sem_wait(&t->go)) ; return; } if (!o || o->finished) return; sem_post(&o->go); while (sem_wait(&t->go)) ; }
void point() { Thread *t = self; uint64_t k = t->points++; if (t->preempt_at >= 0 && (uint64_t)t->preempt_at == k) { t->preempt_at = -1; yield_now(); } }
static void access(const void *p, size_t n, bool w) {
    Thread *t = self; if (!t || !t->on || !t->depth) return; uintptr_t a = (uintptr_t)p; t->accesses++;
    if (a >= t->stk_lo && a < t->stk_hi) return; if (a >= t->prv_lo && a < t->prv_hi) return; if (a >= t->len_lo && a < t->len_hi) return; if (a >= t->ar_lo && a < t->ar_hi) return;
    if (a >= t->in_lo && a < t->in_hi) { if (w && n) t->wrote_input = true; return; }
    if (readonly_mem(a)) return;
    if (all_points) { t->on = false; point(); t->on = true; }
    else if (!conflict.empty()) { for (size_t i = 0; i < n; i++) if (conflict.count(a + i)) { bool o = t->on; t->on = false; point(); t->on = o; break; } }
    if (t->logging && !t->once) { t->on = false; for (size_t i = 0; i < n; i++) { Acc &c = t->shared[a + i]; if (w) { c.w = 1; c.wlocks &= t->locks; } else { c.r = 1; c.rlocks &= t->locks; } } t->on = true; }
}
// synchronisation operations are scheduling points of their own in explorations of synchronised code
void sync_point() { Thread *t = self; if (!t || !t->on || !t->depth) return; t->sync = true; if (all_points) { t->on = false; point(); t->on = true; } }
static pthread_mutex_t *lk[30]; static int nlk = 0;
static int lock_id(pthread_mutex_t *m) { for (int i = 0; i < nlk; i++) if (lk[i] == m) return i; if (nlk < 30) { lk[nlk] = m; return nlk++; } return 29; }
}
using mt::access; using mt::self;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { mt::Thread *t = self; if (!t || !t->on) return; t->depth++; t->on = false; if (t->logging) { if ((int)t->per_depth.size() <= t->depth) t->per_depth.resize(t->depth + 1); t->per_depth[t->depth]++; } if (t->depth <= t->maxdepth) mt::point(); t->on = true; }
void __tsan_func_exit() { mt::Thread *t = self; if (t && t->on) t->depth--; }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); } void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } void __tsan_read_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); } void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
static inline void at() { mt::sync_point(); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int) { at(); return __atomic_load_n(a, 5); } void __tsan_atomic##b##_store(volatile T *a, T v, int) { at(); __atomic_store_n(a, v, 5); } T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { at(); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { at(); return __atomic_fetch_add(a, v, 5); } T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { at(); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { at(); return __atomic_fetch_and(a, v, 5); } T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { at(); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { at(); return __atomic_fetch_xor(a, v, 5); } int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { at(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { at(); } void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
char *__real_strncpy(char *, const char *, size_t); char *__real_strcpy(char *, const char *); void __real_explicit_bzero(void *, size_t); void __real_bzero(void *, size_t);
char *__wrap_strncpy(char *d, const char *s, size_t n) { access(s, strnlen(s, n), false); access(d, n, true); return __real_strncpy(d, s, n); }
char *__wrap_strcpy(char *d, const char *s) { access(s, strlen(s) + 1, false); access(d, strlen(s) + 1, true); return __real_strcpy(d, s); }
void __wrap_explicit_bzero(void *d, size_t n) { access(d, n, true); __real_explicit_bzero(d, n); } void __wrap_bzero(void *d, size_t n) { access(d, n, true); __real_bzero(d, n); }
// synchronisation the library might use
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { mt::Thread *t = self; if (!t || !t->on) return __real_pthread_mutex_lock(m); t->sync = true; mt::sync_point(); while (pthread_mutex_trylock(m)) mt::yield_now(); t->locks |= 1u << mt::lock_id(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { mt::Thread *t = self; if (t && t->on) t->locks &= ~(1u << mt::lock_id(m)); int r = __real_pthread_mutex_unlock(m); if (t && t->on) mt::sync_point(); return r; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { mt::Thread *t = self; if (!t || !t->on) return __real_pthread_once(o, f); t->sync = true; t->once++; long p = t->preempt_at; t->preempt_at = -1; int r = __real_pthread_once(o, f); if (p >= 0 && (uint64_t)p >= t->points) t->preempt_at = p; t->once--; return r; }
// the library's heap: one arena per thread, never reused, so equal addresses mean shared memory
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static void *arena(size_t n) { mt::Thread *t = self; n = (n + 31) & ~(size_t)15; if ((uintptr_t)t->bump + n > t->ar_hi) return nullptr; void *p = t->bump; *(size_t *)p = n; t->bump += n + 16; return (char *)p + 16; }
static bool lib() { return self && self->on && self->depth > 0; }
void *__wrap_malloc(size_t n) { if (lib()) { void *p = arena(n); if (p) { __real_memset(p, 0xEE, n); return p; } } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (lib()) { void *p = arena(a * b); if (p) { __real_memset(p, 0, a * b); return p; } } return __real_calloc(a, b); }
void *__wrap_realloc(void *o, size_t n) { if (lib()) { void *p = arena(n); if (o && p) __real_memcpy(p, o, n); return p; } return __real_realloc(o, n); }
void __wrap_free(void *p) { if (self && (uintptr_t)p >= self->ar_lo && (uintptr_t)p < self->ar_hi) return; __real_free(p); }
}
