// Environment model: link-time stand-ins (--wrap) for the OS random source and the allocator.
#include "core.hpp"
#include "os.hpp"
#include <cerrno>
#include <cstdarg>
#include <sys/syscall.h>
#include <sys/types.h>
namespace env {
thread_local Rng rng;
static thread_local bool track = false; static thread_local long live = 0;
static uint8_t tape_byte(const std::string &t, uint64_t pos) { // splitmix over (tape, block)
    uint64_t h = mc::hash(t.data(), t.size()); uint64_t x = mc::mix(h, pos / 8); x = mc::mix(x, h); return (uint8_t)(x >> (8 * (pos % 8)));
}
void reset(const std::string &tape) { rng = Rng(); rng.tape = tape; }
Bytes expect(const std::string &tape, uint64_t off, size_t n) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = tape_byte(tape, off + i); return r; }
static ssize_t answer(void *buf, size_t n) {
    Rng &r = rng; uint64_t c = r.calls++;
    if (c < 60 && (r.eintr_mask >> c & 1)) { errno = EINTR; return -1; }
    bool f = r.fail_call >= 0 && (c == (uint64_t)r.fail_call || (r.fail_forever && c > (uint64_t)r.fail_call));
    size_t k = n; if (r.max_chunk && k > r.max_chunk) k = r.max_chunk;
    if (r.fail_after >= 0 && (r.fail_forever || !r.failures)) { uint64_t left = r.pos >= (uint64_t)r.fail_after ? 0 : r.fail_after - r.pos; if (!left && n) f = true; else if (k > left) k = left; }
    if (f) { r.failures++; errno = r.fail_errno; return -1; }
    uint8_t *b = (uint8_t *)buf; for (size_t i = 0; i < k; i++, r.pos++) b[i] = r.pos < r.prefix.size() ? r.prefix[r.pos] : tape_byte(r.tape, r.pos);
    return (ssize_t)k;
}
long heap_live() { return live; }
bool faulty = false; long oom_at = -1, oom_seen = 0; std::vector<void *> *oom_sites = nullptr; // fault injector: the allocation that fails
static bool oom(void *site) { if (oom_sites) oom_sites->push_back(site); return oom_at >= 0 && oom_seen++ == oom_at; }
void *watch = nullptr; size_t watch_n = 0, watch_dirty = 0; bool watch_seen = false;
void heap_track(bool on) { track = on; if (on) live = 0; }
}
extern "C" {
ssize_t os_getrandom(void *b, size_t n);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { if (os::active) return os_getrandom(b, n); return env::answer(b, n); }
int __wrap_getentropy(void *b, size_t n) { size_t o = 0; while (o < n) { ssize_t k = env::answer((uint8_t *)b + o, n - o); if (k < 0) { if (errno == EINTR) continue; return -1; } o += k; } return 0; }
long __real_syscall(long, ...);
long __wrap_syscall(long nr, ...) { va_list a; va_start(a, nr); long x[6]; for (auto &v : x) v = va_arg(a, long); va_end(a); if (nr == SYS_getrandom && os::active) return os_getrandom((void *)x[0], (size_t)x[1]); if (nr == SYS_getrandom) return env::answer((void *)x[0], (size_t)x[1]); return __real_syscall(nr, x[0], x[1], x[2], x[3], x[4], x[5]); }
#ifndef MC_MT
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (env::faulty && env::oom(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } void *p = __real_malloc(n); if (env::track && p) { env::live++; memset(p, 0xEE, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (env::faulty && env::oom(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } void *p = __real_calloc(a, b); if (env::track && p) env::live++; return p; }
void *__wrap_realloc(void *o, size_t n) { if (env::faulty && env::oom(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } void *p = __real_realloc(o, n); if (env::track && p && !o) env::live++; return p; }
void __wrap_free(void *p) { if (p && p == env::watch) { env::watch_seen = true; const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < env::watch_n; i++) if (b[i]) env::watch_dirty++; env::watch = nullptr; } if (env::track && p) env::live--; __real_free(p); }
#endif
}
