#include "os.hpp"
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace os {
bool active = false; Explorer ex; World w;
int Explorer::pick(int n, const char *what) {
    if (n < 1) n = 1;
    if (at >= 4000) { overflow = true; if (w.bad.empty()) w.bad = "more than 4000 system calls for one request"; return 0; }
    if (at == choice.size()) { choice.push_back(0); alts.push_back(deviations < bound ? n : 1); }
    else alts[at] = deviations < bound ? n : 1;
    int c = choice[at++]; if (c) deviations++;
    if (log.size() < 900) { log += what; log += mc::fmt("/%d ", c); }
    return c;
}
bool Explorer::next() {
    choice.resize(at); alts.resize(at);
    while (!choice.empty()) { if (choice.back() + 1 < alts.back()) { choice.back()++; return true; } choice.pop_back(); alts.pop_back(); }
    return false;
}
uint8_t byte_at(uint64_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ULL; return (uint8_t)(x >> 56 ^ x >> 31) ; }
void reset(uint8_t *b, size_t n) { w = World(); w.buf = b; w.len = n; errno = 0; }
static void bad(const std::string &s) { if (w.bad.empty()) w.bad = s; }
static bool overrun() { return w.calls > 5000; }
// a request for n bytes at b: full, interrupted, error, or each short count
static ssize_t give(void *b, size_t n, bool device) {
    uint8_t *p = (uint8_t *)b; w.calls++;
    if (overrun()) { bad("does not stop asking"); w.fatal = true; errno = EIO; return -1; }
    bool inside = p >= w.buf && p + n <= w.buf + w.len; if (!inside && p + n > w.buf && p < w.buf + w.len) { bad(mc::fmt("asked for %zu bytes beyond the %zu-byte buffer", n, w.len)); errno = EFAULT; return -1; } // a bounce buffer elsewhere is the code's business: what counts is what arrives
    int shorts = n > 1 ? (n <= 9 ? (int)n - 1 : 4) : 0, errs = device ? 2 : 4;
    int c = ex.pick(1 + 1 + (device ? 1 : 0) + errs + shorts + 1, device ? "read" : "getrandom");
    size_t k = n; if (c == 0) { if (k > 33554431) k = 33554431; }
    else if (c == 1) { errno = EINTR; return -1; }
    else { c -= 2; if (device) { if (c == 0) { errno = EAGAIN; return -1; } c--; }
        if (c < errs) { static const int E[] = {EIO, EFAULT, ENOSYS, EINVAL}; w.fatal = true; errno = E[c]; return -1; }
        c -= errs; if (c == shorts) { w.tolerate = true; return 0; } if (n <= 9) k = c + 1; else { const size_t q[] = {1, n / 2, n - 1, n - n / 4}; k = q[c]; } if (k > 33554431) k = 33554431; }
    if (w.big) { uint64_t at = w.delivered_big; for (size_t i = 0; i < k; i += inside && w.len > (1u << 30) ? 1 << 22 : inside ? 4093 : 1) p[i] = byte_at(at + i); if (k) p[k - 1] = byte_at(at + k - 1); if (inside && (uint64_t)(p - w.buf) != w.delivered_big) bad("bytes requested out of order"); w.delivered_big += k; }
    else { for (size_t i = 0; i < k; i++) { p[i] = byte_at(w.delivered.size()); w.delivered.push_back(p[i]); } }
    return (ssize_t)k;
}
static int do_open(const char *path) {
    w.calls++; if (overrun()) { w.fatal = true; bad("does not stop opening"); errno = EMFILE; return -1; }
    std::string s = path; if (s != "/dev/urandom" && s != "/dev/random") { bad("opens " + s); }
    int c = ex.pick(s == "/dev/urandom" ? 4 : 4, "open"); if (c == 1) { errno = EINTR; return -1; } if (c >= 2) { w.fatal = true; errno = c == 2 ? EMFILE : EACCES; return -1; }
    int fd = w.next_fd++; w.open_fds.push_back({fd, s}); return fd;
}
static std::string *fd_name(int fd) { for (auto &p : w.open_fds) if (p.first == fd) return &p.second; return nullptr; }
static int do_close(int fd) {
    w.calls++; if (!fd_name(fd)) { if (!w.tolerate) bad(mc::fmt("closes descriptor %d which is not open", fd)); errno = EBADF; return -1; }
    for (size_t i = 0; i < w.open_fds.size(); i++) if (w.open_fds[i].first == fd) { w.open_fds.erase(w.open_fds.begin() + i); break; }
    if (ex.pick(2, "close")) { w.tolerate = true; errno = EIO; return -1; } return 0; // the descriptor is gone either way
}
static int do_ioctl(int fd, unsigned long rq, int *out) {
    w.calls++; if (overrun()) { w.fatal = true; bad("does not stop polling the entropy count"); errno = EIO; return -1; } std::string *n = fd_name(fd); if (!n) bad("ioctl on a closed descriptor"); (void)rq;
    if (w.unsupported) { errno = w.unsupported; return -1; } bool later = w.ioctl_seen; w.ioctl_seen = true; int c = ex.pick(later ? 6 : 8, "ioctl"); if (later && c == 5) c = 7; // support for the request does not change between calls
    if (c == 0) { w.entropy = *out = 4096; return 0; } if (c <= 4) { static const int v[] = {0, 127, 128, 1}; w.entropy = *out = v[c - 1]; return 0; }
    if (c == 5) { errno = w.unsupported = ENOTTY; return -1; } if (c == 6) { errno = w.unsupported = ENOSYS; return -1; } w.fatal = true; errno = EINVAL; return -1;
}
static int do_poll(struct pollfd *p, unsigned long nf, int t) {
    w.calls++; if (overrun()) { w.fatal = true; bad("does not stop polling"); errno = EIO; return -1; } if (nf == 0) bad("polls nothing"); for (unsigned long j = 0; j < nf; j++) { if (j >= w.open_fds.size()) { bad("polls more descriptors than it opened"); break; } if (p[j].fd >= 0 && !fd_name(p[j].fd)) bad("polls a closed descriptor"); } if (!(p->events & POLLIN)) bad("waits for an event that never comes (poll without POLLIN)"); (void)t;
    int c = ex.pick(4, "poll"); p->revents = 0; if (c == 0) { p->revents = POLLIN; return 1; } if (c == 1) { errno = EINTR; return -1; } if (c == 2) { errno = EAGAIN; return -1; } w.fatal = true; errno = ENOMEM; return -1;
}
struct Proc { std::string text; size_t pos = 0; bool chosen = false; int err = 0; bool started = false; };
static ssize_t pread_(void *ck, char *b, size_t n) {
    Proc *p = (Proc *)ck; w.calls++; if (overrun()) { w.fatal = true; bad("does not stop reading the entropy count"); errno = EIO; return -1; }
    if (!p->chosen) { p->chosen = true; int c = ex.pick(7, "entropy_avail"); static const char *t[] = {"256\n", "0\n", "127\n", "128\n"}; static const int v[] = {256, 0, 127, 128};
        if (c < 4) { p->text = t[c]; w.entropy = v[c]; } else if (c == 4) { p->chosen = false; errno = EINTR; return -1; } else if (c == 5) { w.fatal = true; errno = EIO; return -1; } else { p->text = "x\n"; w.tolerate = true; errno = 0; // malformed content: either outcome is fine
        } }
    size_t k = 0; while (k < n && p->pos < p->text.size()) b[k++] = p->text[p->pos++]; return (ssize_t)k;
}
static int pseek(void *ck, off64_t *o, int wh) { Proc *p = (Proc *)ck; if (wh == SEEK_SET && *o == 0) { p->pos = 0; p->chosen = false; p->text.clear(); } return 0; }
static int pclose_(void *ck) { delete (Proc *)ck; w.streams--; return 0; }
// ---- other systems: a request that is either met in full or refused
static void all(void *b, size_t n) {
    uint8_t *p = (uint8_t *)b; w.calls++; bool inside = p >= w.buf && p + n <= w.buf + w.len; if (!inside && p + n > w.buf && p < w.buf + w.len) { bad(mc::fmt("asked for %zu bytes beyond the %zu-byte buffer", n, w.len)); return; }
    if (w.big) { uint64_t at = w.delivered_big; if (inside && (uint64_t)(p - w.buf) != at) bad("bytes requested out of order"); size_t st = inside && w.len > (1u << 30) ? 1 << 22 : inside ? 4093 : 1; for (size_t i = (st - at % st) % st; i < n; i += st) p[i] = byte_at(at + i); if (n) { p[0] = byte_at(at); p[n - 1] = byte_at(at + n - 1); } w.delivered_big += n; }
    else for (size_t i = 0; i < n; i++) { p[i] = byte_at(w.delivered.size()); w.delivered.push_back(p[i]); }
}
// the node process that runs the JavaScript part
static FILE *js_in, *js_out; static pid_t js_owner; static std::string js_dir = std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/')) + "/shim/em/run.js";
static bool js_start(const char *code) {
    if (js_owner == getpid()) return js_in != nullptr; js_owner = getpid(); js_in = js_out = nullptr; int a[2], b[2]; if (pipe(a) || pipe(b)) return false;
    pid_t p = fork(); if (p < 0) return false; if (!p) { dup2(a[0], 0); dup2(b[1], 1); for (int f = 3; f < 256; f++) close(f); execlp("node", "node", js_dir.c_str(), (char *)nullptr); _exit(127); }
    close(a[0]); close(b[1]); js_in = fdopen(a[1], "w"); js_out = fdopen(b[0], "r"); fprintf(js_in, "%zu\n%s", strlen(code), code); fflush(js_in); return true;
}
static int js_run(const char *code, intptr_t ptr, intptr_t n) {
    w.calls++; int world = ex.pick(6, "javascript world"); long off = (long)(ptr - (intptr_t)w.buf); size_t mem = w.big ? 0 : w.len + 128; active = false; int ret = 0, thrown = 0; size_t nd = 0; Bytes m(mem, 0xA5); if (mem) memcpy(&m[64], w.buf, w.len); Bytes d;
    bool ok = js_start(code); if (ok) { fprintf(js_in, "%d %ld %d %zu\n", world, off + 64, (int32_t)n, mem); fwrite(m.data(), 1, mem, js_in); fflush(js_in); ok = fscanf(js_out, "%d %d %zu", &ret, &thrown, &nd) == 3 && fgetc(js_out) == '\n'; if (ok) { d.resize(nd); ok = fread(d.data(), 1, nd, js_out) == nd && fread(m.data(), 1, mem, js_out) == mem; } }
    active = true; if (!ok) { w.unavailable = true; js_in = nullptr; return -1; }
    if (world >= 3) (world == 5 ? w.tolerate : w.fatal) = true; if (w.big) { w.delivered_big += nd; w.tolerate = true; }
    if (thrown) { bad(mc::fmt("an exception leaves the JavaScript part instead of an error code (world %d)", world)); return -1; }
    w.delivered.insert(w.delivered.end(), d.begin(), d.end()); for (size_t i = 0; i < mem; i++) { if (i >= 64 && i < 64 + w.len) w.buf[i - 64] = m[i]; else if (m[i] != 0xA5) bad("the JavaScript part writes outside the buffer"); }
    return ret;
}
}
using namespace os;
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); int __real_ioctl(int, unsigned long, ...); int __real_poll(struct pollfd *, nfds_t, int); FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (active) return do_open(p); return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (active) return do_open(p); return __real_open(p, f, m); }
int __wrap_close(int fd) { if (active) return do_close(fd); return __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!active) return __real_read(fd, b, n); std::string *s = fd_name(fd); if (!s) bad("reads from a closed descriptor"); else if (*s != "/dev/urandom") bad("reads random bytes from " + *s); if (w.entropy < 128 && !w.noent) bad(mc::fmt("reads with an entropy count of %d", w.entropy)); return give(b, n, true); }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void *x = va_arg(a, void *); va_end(a); if (active) return do_ioctl(fd, r, (int *)x); return __real_ioctl(fd, r, x); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (active) return do_poll(p, n, t); return __real_poll(p, n, t); }
FILE *__wrap_fopen(const char *p, const char *m) {
    if (!active) return __real_fopen(p, m);
    w.calls++; if (strcmp(p, "/proc/sys/kernel/random/entropy_avail")) bad(std::string("opens stream ") + p); if (ex.pick(2, "fopen")) { w.fatal = true; errno = EMFILE; return nullptr; }
    cookie_io_functions_t io = {pread_, nullptr, pseek, pclose_}; active = false; FILE *f = fopencookie(new Proc, "r", io); if (f) setvbuf(f, nullptr, _IONBF, 0); active = true; w.streams++; return f;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
void os_arc4random(void *b, size_t n) { all(b, n); }
int os_em(const char *code, intptr_t a, intptr_t b) { return js_run(code, a, b); }
int32_t BCryptGenRandom(void *alg, uint8_t *b, uint32_t n, uint32_t flags) {
    if (!alg && !(flags & 2)) return (int32_t)0xC0000008; if (overrun()) { w.fatal = true; bad("does not stop asking"); return (int32_t)0xC0000001; }
    static const uint32_t E[] = {0xC0000008, 0xC000000D, 0xC0000001}; int c = ex.pick(4, "BCryptGenRandom"); if (c) { w.calls++; w.tolerate = true; return (int32_t)E[c - 1]; } all(b, n); return 0;
}
int32_t CryptAcquireContextA(uintptr_t *h, const char *, const char *, uint32_t type, uint32_t flags) {
    w.calls++; if (!(flags & 0xF0000000u)) bad("acquires a persistent key container"); (void)type; if (ex.pick(2, "CryptAcquireContext")) { w.fatal = true; return 0; } *h = (uintptr_t)(0x5000 + w.next_fd++); w.handles.push_back(*h); return 1;
}
int32_t CryptAcquireContextW(uintptr_t *h, const uint16_t *, const uint16_t *, uint32_t t, uint32_t f) { return CryptAcquireContextA(h, nullptr, nullptr, t, f); }
static bool has_handle(uintptr_t h) { for (uintptr_t x : w.handles) if (x == h) return true; return false; }
int32_t CryptGenRandom(uintptr_t h, uint32_t n, uint8_t *b) { if (!has_handle(h)) { bad("uses a provider handle that is not held"); return 0; } if (overrun()) { w.fatal = true; bad("does not stop asking"); return 0; } if (ex.pick(2, "CryptGenRandom")) { w.calls++; w.fatal = true; return 0; } all(b, n); return 1; }
int32_t CryptReleaseContext(uintptr_t h, uint32_t) { w.calls++; if (!has_handle(h)) { bad("releases a provider handle that is not held"); return 0; } for (size_t i = 0; i < w.handles.size(); i++) if (w.handles[i] == h) { w.handles.erase(w.handles.begin() + i); break; } if (ex.pick(2, "CryptReleaseContext")) { w.tolerate = true; return 0; } return 1; }
uint32_t GetLastError() { return 0; } void SetLastError(uint32_t) {}
ssize_t os_getrandom(void *b, size_t n) { return give(b, n, false); }
}
