// C19: every operation gives the same result after any history as in a fresh process.
#include "ops.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cerrno>
#include <map>
#include <set>
using mc::fmt; using namespace im;
namespace {
using ops::Ctx; std::vector<Bytes> base; Ctx *cx;
void prepare() {
    ops::build(); auto &T = ops::table();
    if (!cx) { cx = new Ctx; cx->attach((uint8_t *)mmap(nullptr, Ctx::need(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
    if (!base.empty()) return;
    // each operation alone in a process that has run no library code before
    base.resize(T.size()); size_t next = 0; std::vector<std::pair<int, size_t>> live; std::vector<pid_t> pids;
    while (next < T.size() || !live.empty()) {
        while (next < T.size() && live.size() < 8) { int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork(); if (!c) { close(p[0]); int rc = T[next].run(*cx); Bytes r = cx->result(rc); size_t o = 0; while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) _exit(1); o += k; } _exit(0); } close(p[1]); live.push_back({p[0], next}); pids.push_back(c); next++; }
        auto l = live.front(); live.erase(live.begin()); uint8_t b[65536]; ssize_t k; while ((k = read(l.first, b, sizeof b)) > 0) base[l.second].insert(base[l.second].end(), b, b + k); close(l.first);
    }
    for (pid_t c : pids) { int st; waitpid(c, &st, 0); }
    for (size_t i = 0; i < T.size(); i++) if (base[i].size() < 12) mc::fail("operation '%s' crashes in a fresh process", T[i].name.c_str());
}
// runs a history in a child process that starts fresh; fails on the first step whose result differs from the fresh one
void run_history(const std::vector<int> &h, const std::string &text) {
    auto &T = ops::table(); int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
    if (!c) { close(p[0]); alarm(250); for (size_t k = 0; k < h.size(); k++) { int rc = T[h[k]].run(*cx); mc::transition(); Bytes r = cx->result(rc); if (r != base[h[k]]) { int b; memcpy(&b, base[h[k]].data(), 4); std::string m = mc::fmt("step %zu of %zu (%s): returns %d, %s; in a fresh process it returns %d", k + 1, h.size(), T[h[k]].name.c_str(), rc, rc == b ? "with different output bytes" : "different code", b); (void)!write(p[1], m.data(), m.size()); _exit(3); } } _exit(0); }
    close(p[1]); char b[1024]; std::string m; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) m.append(b, k); close(p[0]); int st; waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) mc::fail("history [%s] crashes with signal %d", text.c_str(), WTERMSIG(st)); if (WEXITSTATUS(st)) mc::fail("history [%s]: %s", text.c_str(), m.c_str());
    for (size_t q = 1, s = mc::mix(77, h[0]); q < h.size(); q++) { s = mc::mix(s, h[q] + 1); mc::state(s); if (q > 40) break; } mc::trace();
}
std::string names(const std::vector<int> &h) { std::string s; for (size_t i = 0; i < h.size() && i < 6; i++) s += (i ? "; " : "") + ops::table()[h[i]].name; if (h.size() > 6) s += mc::fmt("; ... (%zu steps)", h.size()); return s; }
std::vector<int> fastops(int maxcost) { std::vector<int> v; for (size_t i = 0; i < ops::table().size(); i++) if (ops::table()[i].cost <= maxcost) v.push_back((int)i); return v; }
std::vector<int> triple_alpha() { // quick triples: the hybrid operations and one of each component
    std::vector<int> v; static const char *q[] = {"keygen seed A", "compact sign A", "compact sign B", "compact sign A, randomness fails", "compact sign A, length 65", "compact open A", "compact open B", "compact open, Ed25519 part bad", "compact open, Dilithium part bad", "compact verify A", "compact verify, other message", "full open, message changed", "Dilithium keygen B", "Dilithium sign 1", "Dilithium verify 2", "Ed25519 open 1", "secretbox open bad", "SHAKE-256 incremental", "seed expansion A", "random bytes, source fails", "random key generation, source fails"};
    for (size_t i = 0; i < ops::table().size(); i++) for (auto *n : q) if (ops::table()[i].name == n) v.push_back((int)i); return v; }
// one child runs the prefix, then forks itself once for every last operation: each history runs in a process of its own
void run_fan(const std::vector<int> &pre, const std::vector<int> &last) {
    auto &T = ops::table(); int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
    if (!c) { close(p[0]); auto say = [&](const std::string &m) { (void)!write(p[1], m.data(), m.size()); _exit(3); };
        alarm(250); for (int q : pre) { int rc = T[q].run(*cx); mc::transition(); if (cx->result(rc) != base[q]) say(mc::fmt("[%s]: '%s' returns %d and output other than in a fresh process", names(pre).c_str(), T[q].name.c_str(), rc)); } alarm(0);
        for (int q : last) { pid_t d = fork(); if (!d) { alarm(100); int rc = T[q].run(*cx); mc::transition(); if (cx->result(rc) != base[q]) { auto h = pre; h.push_back(q); say(mc::fmt("[%s]: the last operation returns %d and output other than in a fresh process", names(h).c_str(), rc)); } _exit(0); } int st; waitpid(d, &st, 0); if (WIFSIGNALED(st)) { auto h = pre; h.push_back(q); say(mc::fmt("[%s] crashes with signal %d", names(h).c_str(), WTERMSIG(st))); } if (st) _exit(3); } _exit(0); }
    close(p[1]); char buf[1024]; std::string m; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) m.append(buf, k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("history [%s] crashes with signal %d", names(pre).c_str(), WTERMSIG(st)); if (WEXITSTATUS(st)) mc::fail("%s", m.c_str());
    size_t s = 77; for (int q : pre) s = mc::mix(s, q + 1); for (int q : last) { mc::state(mc::mix(s, q + 1)); mc::trace(); }
}
// what else an earlier part of the program can leave behind: stack and heap contents, errno
__attribute__((noinline)) void fill_stack(uint8_t v) { volatile uint8_t b[1 << 20]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; asm volatile("" ::"r"(b) : "memory"); }
void fill_heap(uint8_t v) { std::vector<void *> p; for (size_t n : {16, 32, 64, 100, 136, 160, 168, 200, 208, 216, 224, 232, 256, 400, 512, 1024, 4096, 16384, 65536}) for (int k = 0; k < 12; k++) { void *q = aligned_alloc(16, (n + 15) / 16 * 16); if (q) memset(q, v, n), p.push_back(q); } for (void *q : p) free(q); }
struct Res { const char *name; void (*run)(); };
const Res RES[] = {{"stack memory left as 0xFF", [] { fill_stack(0xFF); }}, {"stack memory left as 0x01", [] { fill_stack(1); }}, {"stack memory left as 0x80", [] { fill_stack(0x80); }}, {"heap memory left as 0xFF", [] { fill_heap(0xFF); }}, {"heap memory left as 0x01", [] { fill_heap(1); }}, {"errno left as EINTR", [] { errno = EINTR; }}, {"errno left as EAGAIN", [] { errno = EAGAIN; }}, {"errno left as ENOMEM", [] { errno = ENOMEM; }}, {"errno left as ENOSYS", [] { errno = ENOSYS; }}};
const int NRES = sizeof RES / sizeof *RES;
mc::Reg h6({"y_residue", "every operation after the program has left other contents on the stack (3 values), on the heap (2 values) or in errno (4 values): results as in a fresh process",
    [](int) -> uint64_t { prepare(); return ops::table().size(); },
    [](uint64_t i) { auto &T = ops::table(); int n = !mc::tier && T[i].cost == 2 ? 4 : NRES; for (int r = 0; r < n; r++) { int z = n < NRES ? (int[]){0, 1, 3, 5}[r] : r; int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
            if (!c) { close(p[0]); alarm(100); RES[z].run(); int rc = T[i].run(*cx); mc::transition(); if (cx->result(rc) != base[i]) { std::string m = fmt("with %s, '%s' returns %d and output other than in a fresh process", RES[z].name, T[i].name.c_str(), rc); (void)!write(p[1], m.data(), m.size()); _exit(3); } _exit(0); }
            close(p[1]); char b[1024]; std::string m; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) m.append(b, k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("with %s, '%s' crashes with signal %d", RES[z].name, T[i].name.c_str(), WTERMSIG(st)); if (WEXITSTATUS(st)) mc::fail("%s", m.c_str()); mc::state(mc::mix(i, z)); mc::trace(); } },
    [](uint64_t i) { return ops::table()[i].name + " after other stack, heap and errno contents"; }, 200});
mc::Reg h7({"y_align", "every operation with each of its buffers alone, and all together, moved by 1..7 bytes (operations of milliseconds: by 1, 2, 4 and 7; full signing: all together by 1; thorough: 1..15): results as at aligned addresses",
    [](int) -> uint64_t { prepare(); return ops::table().size(); },
    [](uint64_t i) { auto &T = ops::table(); int c0 = mc::tier ? 0 : T[i].cost; int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
        if (!c) { close(p[0]); alarm(250); for (int b = c0 == 2 ? 6 : 0; b < 7; b++) for (int d = 1; d < (mc::tier ? 16 : c0 == 2 ? 2 : 8); d++) { if (c0 == 1 && d != 1 && d != 2 && d != 4 && d != 7) continue; Ctx x = *cx; for (int q = 0; q < 4; q++) if (b == q || b == 6) x.in[q] += d; for (int q = 0; q < 2; q++) if (b == 4 + q || b == 6) x.out[q] += d; int rc = T[i].run(x); mc::transition(); if (x.result(rc) != base[i]) { std::string m = fmt("'%s' with %s moved by %d bytes returns %d and output other than at aligned addresses", T[i].name.c_str(), b == 6 ? "all buffers" : fmt("buffer %d", b).c_str(), d, rc); (void)!write(p[1], m.data(), m.size()); _exit(3); } } _exit(0); }
        close(p[1]); char b[1024]; std::string m; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) m.append(b, k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("'%s' crashes with moved buffers (signal %d)", T[i].name.c_str(), WTERMSIG(st)); if (WEXITSTATUS(st)) mc::fail("%s", m.c_str()); for (int b = c0 == 2 ? 6 : 0; b < 7; b++) for (int d : {1, 2, 4, 7}) if (c0 < 2 || d == 1) mc::state(mc::mix(i, b * 16 + d)); mc::trace(); },
    [](uint64_t i) { return ops::table()[i].name + " with moved buffers"; }, 300});
const int CH = 6; std::vector<int> chunk(int k) { std::vector<int> v; for (size_t b = k; b < ops::table().size(); b += CH) v.push_back((int)b); return v; }
mc::Reg h1({"y_pairs", "all ordered pairs of operations (107-operation alphabet: every public operation with succeeding and failing arguments on the same addresses), each pair in a process of its own, against fresh-process results",
    [](int) -> uint64_t { prepare(); return ops::table().size() * CH; },
    [](uint64_t i) { run_fan({(int)(i / CH)}, chunk(i % CH)); },
    [](uint64_t i) { return names({(int)(i / CH)}) + "; then each of: " + names(chunk(i % CH)); }, 300});
std::vector<int> ta;
mc::Reg h2({"y_triples", "all ordered triples over the fast operations (21 in quick, all that take milliseconds in thorough)",
    [](int t) -> uint64_t { prepare(); ta = t ? fastops(1) : triple_alpha(); return (uint64_t)ta.size() * ta.size(); },
    [](uint64_t i) { size_t n = ta.size(); run_fan({ta[i / n], ta[i % n]}, ta); },
    [](uint64_t i) { size_t n = ta.size(); return names({ta[i / n], ta[i % n]}) + "; then each operation"; }, 200});
// repetitions: past 2^16 for operations of microseconds, past 2^12, 2^10 or 2^8 for slower ones
int reps(const std::string &n, int c) {
    static const char *micro[] = {"SHA", "secretbox", "Poly1305", "seed expansion", "random bytes", "XSalsa", "Salsa", "compact sign A, length", "compact sign A, randomness fails", "random key generation, source", "compact open, identifier", "compact open, length", "compact calls", "full open, identifier", "full open, length", "full calls"};
    for (auto *m : micro) if (n.find(m) == 0) return 66000; if (mc::tier && n == "compact sign A") return 66000;
    if (mc::tier) return c == 0 ? 70000 : c == 1 ? 4100 : 20; if (c == 0 || n.find("Dilithium") == 0) return 4100; if (n == "compact sign A" || n == "compact open A" || n == "compact verify A" || n == "Ed25519 sign A" || n == "Ed25519 open 0" || n == "box") return 1030; return c == 1 ? 260 : 3; }
mc::Reg h3({"y_repeat", "long histories: each operation repeated k times (k past 2^16 for operations of microseconds, 2^12 below a millisecond, 2^10 or 2^8 for slower ones, 3 for full signing; thorough 2^12 for all of milliseconds, 2^16 below and for compact signing), every repetition and then one of every other operation against fresh results",
    [](int) -> uint64_t { prepare(); return ops::table().size(); },
    [](uint64_t i) { auto &T = ops::table(); int c = T[i].cost; int k = reps(T[i].name, c); std::vector<int> h(k, (int)i); for (size_t q = 0; q < T.size(); q++) if (T[q].cost < 2) h.push_back((int)q); run_history(h, T[i].name + mc::fmt(" x %d, then every operation", k)); },
    [](uint64_t i) { return ops::table()[i].name + " repeated, then every operation"; }, 900});
// near-identical inputs: an operation, then the same operation with one input byte changed, and back again
struct Near { int op, in; std::vector<size_t> pos; int kind = 0; }; std::vector<Near> near;
struct Shape { size_t n[4]; }; Shape *shapes;
std::vector<size_t> positions(size_t n, int cost) {
    std::vector<size_t> v; auto add = [&](size_t p) { if (p < n) v.push_back(p); }; if (!n) return v;
    if (cost == 2) { for (size_t p : {(size_t)0, (size_t)31, (size_t)32, (size_t)63, n - 1}) add(p); if (n == im::SK) for (size_t p : {64, 96, 1000, 2624, 3935, 3936, 3967, 3968, 4000, 4031, 4032}) add(p); if (mc::tier) for (size_t k = 0; k < n; k += std::max<size_t>(1, n / 40)) add(k); }
    else if (n <= 200 || (mc::tier && n <= 5000)) for (size_t k = 0; k < n; k++) add(k);
    else { static const size_t c[] = {0, 1, 2, 31, 32, 33, 34, 63, 64, 65, 66, 67, 95, 96, 97, 98, 127, 128, 159, 160, 161, 191, 192, 255, 256, 257, 511, 512, 1023, 1024, 1312, 1343, 1344, 1345, 1375, 1376, 1377, 1407, 2420, 2624, 3936, 3968, 4000, 4032}; for (size_t k : c) { add(k); if (k && k <= n) add(n - k); } for (size_t k = 0; k < n; k += std::max<size_t>(1, n / (mc::tier ? 600 : 30))) add(k); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
Bytes fresh(int op, int in, size_t pos, uint8_t mask, int kind) { int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork(); if (!c) { close(p[0]); alarm(100); cx->pi = in; cx->pp = pos; cx->pm = mask; cx->pk = kind; int rc = ops::table()[op].run(*cx); Bytes r = cx->result(rc); size_t o = 0; while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) _exit(1); o += k; } _exit(0); } close(p[1]); Bytes r; uint8_t b[65536]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.insert(r.end(), b, b + k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("'%s' with byte %zu of input %d changed crashes with signal %d", ops::table()[op].name.c_str(), pos, in, WTERMSIG(st)); return r; }
void shape() { prepare(); auto &T = ops::table(); if (!shapes) { shapes = (Shape *)mmap(nullptr, T.size() * sizeof(Shape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (size_t i = 0; i < T.size(); i++) { fflush(stdout); pid_t c = fork(); if (!c) { T[i].run(*cx); memcpy(shapes[i].n, cx->nin, sizeof cx->nin); _exit(0); } int st; waitpid(c, &st, 0); } } }
void near_run(uint64_t i) { auto &N = near[i]; auto &T = ops::table(); std::vector<Bytes> f; auto mask = [&](size_t p) -> uint8_t { return p % 2 ? 1 : 0x80; }; for (size_t p : N.pos) f.push_back(fresh(N.op, N.in, p, mask(p), N.kind));
        int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
        if (!c) { close(p[0]); alarm(300); auto die = [&](size_t pos, const char *w) { std::string m = mc::fmt("'%s', then with byte %zu of input %d changed: %s", T[N.op].name.c_str(), pos, N.in, w); (void)!write(p[1], m.data(), m.size()); _exit(3); };
            int rc = T[N.op].run(*cx); mc::transition(); if (cx->result(rc) != base[N.op]) die(0, "the first call already differs from a fresh process");
            for (size_t k = 0; k < N.pos.size(); k++) { cx->pi = N.in; cx->pp = N.pos[k]; cx->pm = mask(N.pos[k]); cx->pk = N.kind; rc = T[N.op].run(*cx); mc::transition(); if (cx->result(rc) != f[k]) die(N.pos[k], "the result is not the one a fresh process gives"); cx->pi = -1; rc = T[N.op].run(*cx); mc::transition(); if (cx->result(rc) != base[N.op]) die(N.pos[k], "the original call then gives another result than before"); } _exit(0); }
        close(p[1]); char b[1024]; std::string m; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) m.append(b, k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("'%s' with changed inputs crashes with signal %d", T[N.op].name.c_str(), WTERMSIG(st)); if (WEXITSTATUS(st)) mc::fail("%s", m.c_str());
        for (size_t q : N.pos) mc::state(mc::mix(mc::mix(N.op, N.in), mc::mix(q, N.kind))); mc::trace(); }
std::string near_desc(uint64_t i) { auto &N = near[i]; return mc::fmt("%s, input %d, bytes %zu..%zu changed one at a time (kind %d)", ops::table()[N.op].name.c_str(), N.in, N.pos.front(), N.pos.back(), N.kind); }
mc::Reg h4({"y_near", "near-identical inputs: every operation, each input, one byte changed (every position of inputs to 200 bytes; boundaries and a grid of larger ones; thorough: every position to 5000 bytes): original, changed, original again in one process, against fresh-process results",
    [](int) -> uint64_t { shape(); near.clear(); auto &T = ops::table();
        for (int c = 2; c >= 0; c--) for (size_t i = 0; i < T.size(); i++) if (T[i].cost == c) for (int k = 0; k < 4; k++) { auto v = positions(shapes[i].n[k], c); size_t step = c == 2 ? 2 : c == 1 ? 20 : 60; for (size_t o = 0; o < v.size(); o += step) near.push_back({(int)i, k, {v.begin() + o, v.begin() + std::min(v.size(), o + step)}}); }
        return near.size(); },
    near_run, near_desc, 400});
mc::Reg h8({"y_folds", "inputs that agree in every simple checksum: every operation, each input, two bytes (1, 4, 8 or 32 apart) swapped, changed alike, or one raised and one lowered, and the whole input rotated or reversed, at a grid of positions: original, changed, original again in one process, against fresh-process results",
    [](int t) -> uint64_t { shape(); near.clear(); auto &T = ops::table();
        for (int c = 2; c >= 0; c--) for (size_t i = 0; i < T.size(); i++) if (T[i].cost == c) for (int k = 0; k < 4; k++) { size_t n = shapes[i].n[k]; if (n < 2) continue; for (int kind = 1; kind <= 14; kind++) { if (c == 2 && !t && kind != 1 && kind != 7) continue; std::vector<size_t> v; auto add = [&](size_t p) { if (p < n) v.push_back(p); };
            if (kind > 12) add(0); else { add(0); if (c < 2 || t) { for (size_t p : {(size_t)2, (size_t)33, (size_t)64, (size_t)66, n / 2, n - 2, n - 33}) add(p); if (c == 0 || t) for (size_t p = 0; p < n; p += std::max<size_t>(1, n / (t ? 60 : 16))) add(p); } else add(n - 9); }
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); near.push_back({(int)i, k, v, kind}); } }
        return near.size(); },
    near_run, near_desc, 400});
// the same content cut at different lengths, one call after another
struct Cut { const char *name; std::vector<size_t> n; int (*run)(Ctx &, const Bytes &); }; std::vector<Cut> cuts; struct CutCase { int op, content; size_t first; }; std::vector<CutCase> cutc;
Bytes cut_content(int kind, size_t n) { Bytes b = mc::prf("cut", 400); if (kind == 1) b = Bytes(400, 0); if (kind == 2) for (size_t k = 16; k < 400; k++) b[k] = 0; if (kind == 3) for (size_t k = 0; k < 400; k++) b[k] = b[k % 8]; b.resize(n); return b; }
void cut_setup() {
    if (!cuts.empty()) return; std::vector<size_t> M = {1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64}, H = {0, 1, 8, 16, 32, 64, 71, 72, 104, 111, 112, 128, 135, 136, 137, 168, 200, 272};
    cuts.push_back({"compact signing", M, [](Ctx &c, const Bytes &m) { c.want(smlen_of(COMPACT, m.size())); ops::tape("cut"); auto *k = c.put(0, ops::fix().A.sk); return c_sign(COMPACT, c.out[0], &c.len.ull, c.put(1, m), m.size(), k); }});
    cuts.push_back({"compact opening", M, [](Ctx &c, const Bytes &m) { c.want(64); static std::map<Bytes, Bytes> memo; Bytes &s = memo[m]; if (s.empty()) s = ref_compact(*ops::fix().rk[0], m, mc::prf("cutn", 40)); auto *k = c.put(0, ops::fix().A.pk); return c_open(COMPACT, c.out[0], &c.len.ull, c.put(1, s), s.size(), k); }});
    cuts.push_back({"compact verification", M, [](Ctx &c, const Bytes &m) { c.want(0); static Bytes s = ref_compact(*ops::fix().rk[0], cut_content(0, 32), mc::prf("cutn", 40)); auto *k = c.put(0, ops::fix().A.pk); return c_verify(COMPACT, c.put(2, m), m.size(), c.put(1, s), s.size(), k); }});
    cuts.push_back({"full verification", {31, 32, 33}, [](Ctx &c, const Bytes &m) { c.want(0); auto *k = c.put(0, ops::fix().A.pk); Bytes x = ops::fix().m1; x.resize(m.size(), m.back()); return c_verify(FULL, c.put(2, x), x.size(), c.put(1, ops::fix().fs1), ops::fix().fs1.size(), k); }});
    cuts.push_back({"full signing", {1, 32, 33, 64}, [](Ctx &c, const Bytes &m) { c.want(smlen_of(FULL, m.size())); ops::tape("cut"); auto *k = c.put(0, ops::fix().A.sk); return c_sign(FULL, c.out[0], &c.len.ull, c.put(1, m), m.size(), k); }});
    cuts.push_back({"Dilithium signing", H, [](Ctx &c, const Bytes &m) { c.want(2420); return DIL(crypto_sign_signature)(c.out[0], &c.len.sz, c.put(1, m), m.size(), c.put(0, sub(ops::fix().A.sk, 64, 2560))); }});
    cuts.push_back({"Dilithium verification", H, [](Ctx &c, const Bytes &m) { c.want(0); static Bytes s = ops::fix().rk[0]->dsign(cut_content(0, 64)); return DIL(crypto_sign_verify)(c.put(0, s), 2420, c.put(1, m), m.size(), c.put(2, sub(ops::fix().A.pk, 32, 1312))); }});
    cuts.push_back({"stand-alone Dilithium verification", M, [](Ctx &c, const Bytes &m) { c.want(0); static Bytes s = ops::fix().rk[0]->dsign(cut_content(0, 32)); return crypto_verify_dilithium(c.put(0, m), m.size(), c.put(1, s), 2420, c.put(2, sub(ops::fix().A.pk, 32, 1312))); }});
    cuts.push_back({"SPHINCS+ verification", {0, 31, 32, 33, 136}, [](Ctx &c, const Bytes &m) { c.want(0); Bytes x = ops::fix().m1; x.resize(m.size(), 0); return SPH(crypto_sign_verify)(c.put(0, ops::fix().ss1), 49856, c.put(1, x), x.size(), c.put(2, sub(ops::fix().A.pk, 1344, 64))); }});
    cuts.push_back({"Ed25519 signing", H, [](Ctx &c, const Bytes &m) { c.want(64 + m.size()); return crypto_sign(c.out[0], &c.len.ull, c.put(1, m), m.size(), c.put(0, sub(ops::fix().A.sk, 0, 64))); }});
    cuts.push_back({"Ed25519 opening", H, [](Ctx &c, const Bytes &m) { c.want(64 + m.size()); Bytes sm = cat({ref::ed::sign(cut_content(0, 64), sub(ops::fix().A.sk, 0, 64)), m}); int rc = crypto_sign_open(c.out[0], &c.len.ull, c.put(0, sm), sm.size(), c.put(1, sub(ops::fix().A.pk, 0, 32))); if (rc) c.want(0); return rc; }});
    cuts.push_back({"SHA-512", H, [](Ctx &c, const Bytes &m) { c.want(64); return crypto_hash(c.out[0], c.put(0, m), m.size()); }});
    cuts.push_back({"SHA3-256", H, [](Ctx &c, const Bytes &m) { c.want(32); sha3_256(c.out[0], c.put(0, m), m.size()); return 0; }}); cuts.push_back({"SHA3-384", H, [](Ctx &c, const Bytes &m) { c.want(48); sha3_384(c.out[0], c.put(0, m), m.size()); return 0; }}); cuts.push_back({"SHA3-512", H, [](Ctx &c, const Bytes &m) { c.want(64); sha3_512(c.out[0], c.put(0, m), m.size()); return 0; }});
    cuts.push_back({"SHAKE-256", H, [](Ctx &c, const Bytes &m) { c.want(200); shake256(c.out[0], 200, c.put(0, m), m.size()); return 0; }}); cuts.push_back({"SHAKE-128 (output length)", H, [](Ctx &c, const Bytes &m) { c.want(m.size()); shake128(c.out[0], m.size(), c.put(0, cut_content(0, 30)), 30); return 0; }});
    cuts.push_back({"seed expander (seed length)", {0, 31, 32, 33, 64, 65, 100, 136, 200}, [](Ctx &c, const Bytes &m) { c.want(220); return seedexpander_wrapper(c.put(0, m), m.size(), c.out[0], 220); }}); cuts.push_back({"seed expander (output length)", {0, 1, 32, 33, 34, 64, 100, 136, 137, 272}, [](Ctx &c, const Bytes &m) { c.want(m.size()); return seedexpander_wrapper(c.put(0, cut_content(0, 32)), 32, c.out[0], m.size()); }});
    cuts.push_back({"Poly1305", H, [](Ctx &c, const Bytes &m) { c.want(16); return crypto_onetimeauth(c.out[0], c.put(0, m), m.size(), c.put(1, ops::fix().bk)); }}); cuts.push_back({"XSalsa20", H, [](Ctx &c, const Bytes &m) { c.want(m.size()); return crypto_stream_xor(c.out[0], c.put(0, m), m.size(), c.put(1, ops::fix().bn), c.put(2, ops::fix().bk)); }});
    cuts.push_back({"secretbox", H, [](Ctx &c, const Bytes &m) { c.want(m.size() + 32); Bytes x = cat({Bytes(32, 0), m}); return crypto_secretbox(c.out[0], c.put(0, x), x.size(), c.put(1, ops::fix().bn), c.put(2, ops::fix().bk)); }});
    cuts.push_back({"random bytes", H, [](Ctx &c, const Bytes &m) { c.want(m.size()); ops::tape("cut"); return randombytes(c.out[0], m.size()); }});
}
Bytes in_child(std::function<Bytes()> f, const char *what) { int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork(); if (!c) { close(p[0]); alarm(200); Bytes r = f(); size_t o = 0; while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) _exit(1); o += k; } _exit(0); } close(p[1]); Bytes r; uint8_t b[65536]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.insert(r.end(), b, b + k); close(p[0]); int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) mc::fail("%s crashes with signal %d", what, WTERMSIG(st)); return r; }
mc::Reg h9({"y_lens", "one content cut at different lengths: every length-dependent operation, all ordered pairs of lengths (boundaries of blocks and of the message range), contents arbitrary and zero-extended (thorough: also zero and periodic), also one kind of content after another: the second and a repeated first call as in a fresh process",
    [](int) -> uint64_t { prepare(); cut_setup(); cutc.clear(); for (size_t o = 0; o < cuts.size(); o++) for (int k = 0; k < 4; k++) for (size_t n : cuts[o].n) { if (k % 2 && !mc::tier) continue; if (!strcmp(cuts[o].name, "full signing") && (k || (!mc::tier && n != 32))) continue; cutc.push_back({(int)o, k, n}); } return cutc.size(); },
    [](uint64_t i) { auto C = cutc[i]; auto &K = cuts[C.op]; auto one = [&](const Bytes &m) { int rc = K.run(*cx, m); return cx->result(rc); }; Bytes a = cut_content(C.content, C.first), fa = in_child([&] { return one(a); }, K.name); if (fa.size() < 12) mc::fail("%s of %zu bytes gives no result", K.name, C.first);
        for (size_t n : K.n) for (int k : {C.content, 0}) { Bytes b = cut_content(k, n), fb = in_child([&] { return one(b); }, K.name); Bytes r = in_child([&] { Bytes x = one(a), y = one(b), z = one(a); Bytes v; v.push_back(x == fa); v.push_back(y == fb); v.push_back(z == fa); return v; }, K.name); mc::transition(5); mc::state(mc::mix(i, mc::mix(n, k))); if (r.size() != 3) mc::fail("%s: no result", K.name); for (int q = 0; q < 3; q++) if (!r[q]) mc::fail("%s of %zu bytes, then %zu bytes of the same content (kind %d), then the first again: call %d differs from a fresh process", K.name, C.first, n, k, q + 1); if (C.content == 0) break; }
        mc::trace(); },
    [](uint64_t i) { auto C = cutc[i]; return fmt("%s of %zu bytes (content %d), then every other length", cuts[C.op].name, C.first, C.content); }, 400});
// key pairs that are valid but agree in a checksum, a prefix, a suffix or a part of the public key
Bytes twin(const Bytes &r, int k) { Bytes b = r, o = mc::prf("twin" + std::to_string(k), r.size()); size_t n = r.size(); switch (k) {
    case 0: break; case 1: std::swap(b[0], b[1]); break; case 2: std::swap(b[0], b[4]); break; case 3: std::swap(b[0], b[8]); break; case 4: std::swap(b[0], b[n - 1]); break; case 5: b[0] ^= 1; b[4] ^= 1; break; case 6: b[0] ^= 1; b[8] ^= 1; break; case 7: b[0]++; b[1]--; break; case 8: b[0]++; b[8]--; break;
    case 9: std::rotate(b.begin(), b.begin() + 1, b.end()); break; case 10: std::rotate(b.begin(), b.begin() + 8, b.end()); break; case 11: std::reverse(b.begin(), b.end()); break; case 12: std::copy(o.begin() + 8, o.end(), b.begin() + 8); break; case 13: std::copy(o.begin() + 16, o.end(), b.begin() + 16); break; case 14: std::copy(o.begin(), o.end() - 8, b.begin()); break; case 15: b[n - 1] ^= 1; break; case 16: b[0] ^= 0x80; break; } return b; }
const int NTWIN = 17; // 17 and 18: the same first, or the same last, 32-byte part of the key and everything else different
void expect_all(const std::string &what, std::function<std::string()> f) { Bytes r = in_child([&] { std::string m = f(); Bytes b{1}; b.insert(b.end(), m.begin(), m.end()); return b; }, what.c_str()); if (r.empty()) mc::fail("%s: no result", what.c_str()); if (r.size() > 1) mc::fail("%s: %s", what.c_str(), std::string(r.begin() + 1, r.end()).c_str()); }
struct DTwin { Bytes pk, sk, sig, csm, cpk; }; DTwin dtwin(int k) { Bytes rho = mc::prf("twrho", 32), rp = mc::prf("twrp", 64), key = mc::prf("twk", 32); if (k == NTWIN) { rp = mc::prf("twrp2", 64); key = mc::prf("twk2", 32); } else rho = twin(rho, k); DTwin t; ref::dil::keygen_parts(rho, rp, key, t.pk, t.sk); ref::dil::Signer s(t.sk); s.sign(ops::fix().m1, t.sig);
    Bytes spk = sub(ops::fix().A.pk, 1344, 64), n = mc::prf("twn", 40), h = ref::sha3(cat({n, ops::fix().m1, spk}), 512), d; s.sign(h, d); t.csm = asm_compact(ops::fix().m1, ref::ed::sign(h, sub(ops::fix().A.sk, 0, 64)), d, n); t.cpk = cat({sub(ops::fix().A.pk, 0, 32), t.pk, spk}); return t; }
mc::Reg h10({"y_twins", "valid key pairs made by the model that agree in sums, folds, prefixes, suffixes or parts of the public key (18 variants, Dilithium, SPHINCS+, compact mode; pairs of 1500 Ed25519 keys that agree in 16-bit tags): verification, opening and signing under one right after the other, every ordered pair that involves the original: the verdicts and signatures of the specification",
    [](int) -> uint64_t { prepare(); return 2 * NTWIN + NTWIN + 1; },
    [](uint64_t i) { auto &F = ops::fix(); auto cat_fail = [](const std::string &s) { return s; };
        if (i < 2 * (uint64_t)NTWIN) { DTwin a = dtwin(i & 1 ? (int)i / 2 + 1 : 0), b = dtwin(i & 1 ? 0 : (int)i / 2 + 1);
            expect_all(fmt("Dilithium keys %d", (int)i), [&] { size_t l; uint8_t s[2420], m[64]; unsigned long long ml; mc::transition(9); auto ver = [&](const DTwin &k, const DTwin &sg) { return DIL(crypto_sign_verify)(sg.sig.data(), 2420, F.m1.data(), 32, k.pk.data()); };
                if (ver(a, a)) return cat_fail("the first key's signature is refused"); if (ver(b, b)) return cat_fail("the second key's signature is refused after the first key's"); if (!ver(b, a)) return cat_fail("the first key's signature is accepted under the second key"); if (ver(a, a)) return cat_fail("the first key's signature is refused after the second key's");
                for (const DTwin *k : {&a, &b, &a}) { if (DIL(crypto_sign_signature)(s, &l, F.m1.data(), 32, k->sk.data()) || Bytes(s, s + 2420) != k->sig) return cat_fail("a signature differs from the specification's"); }
                for (const DTwin *k : {&a, &b, &a}) { if (crypto_verify_dilithium(F.m1.data(), 32, k->sig.data(), 2420, k->pk.data())) return cat_fail("stand-alone verification refuses a valid signature"); if (c_open(COMPACT, m, &ml, k->csm.data(), k->csm.size(), k->cpk.data())) return cat_fail("a valid compact signature is refused"); if (c_verify(COMPACT, F.m1.data(), 32, k->csm.data(), k->csm.size(), k->cpk.data())) return cat_fail("a valid compact signature is not verified"); }
                if (!c_open(COMPACT, m, &ml, a.csm.data(), a.csm.size(), b.cpk.data())) return cat_fail("a compact signature is accepted under the other key"); return cat_fail(""); }); }
        else if (i < 3 * (uint64_t)NTWIN) { int k = (int)i - 2 * NTWIN + 1; auto make = [&](int q, Bytes &pk, Bytes &sig) { Bytes seed = mc::prf("twsp", 96); if (q == NTWIN) { Bytes o = mc::prf("twsp2", 64); std::copy(o.begin(), o.end(), seed.begin()); } else { Bytes p = twin(sub(seed, 64, 32), q); std::copy(p.begin(), p.end(), seed.begin() + 64); }
                Bytes r = in_child([&] { Bytes x(64), y(128), s(49856); size_t l; env::reset("twin"); if (SPH(crypto_sign_seed_keypair)(x.data(), y.data(), seed.data()) || SPH(crypto_sign_signature)(s.data(), &l, F.m1.data(), 32, y.data())) return Bytes(); return cat({x, s}); }, "SPHINCS+ signing"); if (r.size() != 64 + 49856) mc::fail("SPHINCS+ signing fails"); pk = sub(r, 0, 64); sig = sub(r, 64, 49856); };
            Bytes pa, sa, pb, sb; make(0, pa, sa); make(k, pb, sb);
            expect_all(fmt("SPHINCS+ keys 0 and %d", k), [&] { mc::transition(6); auto ver = [&](const Bytes &p, const Bytes &s) { return SPH(crypto_sign_verify)(s.data(), s.size(), F.m1.data(), 32, p.data()); }; if (ver(pa, sa)) return cat_fail("the first key's signature is refused"); if (ver(pb, sb)) return cat_fail("the second key's signature is refused after the first key's"); if (ver(pa, sa)) return cat_fail("the first key's signature is refused after the second key's"); if (!ver(pa, sb) || !ver(pb, sa)) return cat_fail("a signature is accepted under the other key"); return cat_fail(""); }); }
        else { std::vector<std::pair<Bytes, Bytes>> ks; for (int q = 0; q < 1500; q++) { Bytes s = mc::prf("twed" + std::to_string(q), 32), pk(32), sk(64); crypto_sign_keypair_seed(pk.data(), sk.data(), s.data()); ks.push_back({pk, sk}); } long done = 0;
            for (int tag = 0; tag < 6; tag++) { std::map<uint32_t, int> seen; int found = 0; for (int q = 0; q < 1500 && found < 4; q++) { const Bytes &p = ks[q].first; uint32_t v = 0; for (int j = 0; j < 32; j++) switch (tag) { case 0: v ^= p[j] << 8 * (j & 1); break; case 1: v += p[j]; break; case 2: if (j < 2) v = v << 8 | p[j]; break; case 3: if (j >= 30) v = v << 8 | p[j]; break; case 4: v = (v + (p[j] << 8 * (j & 1))) & 0xFFFF; break; case 5: v = (v * 31 + p[j]) & 0xFFFF; break; }
                if (!seen.count(v)) { seen[v] = q; continue; } int o = seen[v]; found++; done++; Bytes sa = cat({ref::ed::sign(F.m1, ks[o].second), F.m1}), sb = cat({ref::ed::sign(F.m1, ks[q].second), F.m1});
                expect_all(fmt("Ed25519 keys %d and %d", o, q), [&] { mc::transition(5); uint8_t m[200]; unsigned long long l; auto ver = [&](int k, const Bytes &s) { return crypto_sign_open(m, &l, s.data(), s.size(), ks[k].first.data()); }; if (ver(o, sa) || ver(q, sb) || ver(o, sa)) return cat_fail("a valid signature is refused after another key's"); if (!ver(q, sa) || !ver(o, sb)) return cat_fail("a signature is accepted under the other key"); for (int k : {o, q, o}) if (crypto_sign(m, &l, F.m1.data(), 32, ks[k].second.data()) || Bytes(m, m + 96) != (k == o ? sa : sb)) return cat_fail("a signature differs from the specification's"); return cat_fail(""); }); } }
            mc::state(done); }
        mc::state(mc::mix(991, i)); mc::trace(); },
    [](uint64_t i) { return i < 2 * (uint64_t)NTWIN ? fmt("Dilithium and compact mode, twin key %d %s the original", (int)i / 2 + 1, i & 1 ? "before" : "after") : i < 3 * (uint64_t)NTWIN ? fmt("SPHINCS+, twin key %d", (int)i - 2 * NTWIN + 1) : std::string("Ed25519 keys with equal tags"); }, 400});
}
// ---------------------------------------------------------------- C22: every allocation that can fail, fails once
namespace {
struct Oom { std::string name; std::function<void()> run; }; std::vector<Oom> om;
template <class C> void inc_ops(const char *n, void (*init)(C *), void (*absorb)(C *, const uint8_t *, size_t), void (*clone)(C *, const C *), void (*rel)(C *)) {
    om.push_back({fmt("%s context: init, absorb, clone, absorb both, release both", n), [=] { C a, b; init(&a); absorb(&a, cx->in[0], 300); clone(&b, &a); absorb(&b, cx->in[0], 50); absorb(&a, cx->in[0], 60); rel(&a); rel(&b); }});
}
void oom_setup() {
    ops::build(); if (!cx) { cx = new Ctx; cx->attach((uint8_t *)mmap(nullptr, Ctx::need(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
    if (!om.empty()) return;
    for (size_t i = 0; i < ops::table().size(); i++) om.push_back({ops::table()[i].name, [i] { ops::table()[i].run(*cx); }});
    inc_ops<shake128incctx>("incremental SHAKE-128", shake128_inc_init, shake128_inc_absorb, shake128_inc_ctx_clone, shake128_inc_ctx_release); inc_ops<shake256incctx>("incremental SHAKE-256", shake256_inc_init, shake256_inc_absorb, shake256_inc_ctx_clone, shake256_inc_ctx_release);
    inc_ops<sha3_256incctx>("SHA3-256", sha3_256_inc_init, sha3_256_inc_absorb, sha3_256_inc_ctx_clone, sha3_256_inc_ctx_release); inc_ops<sha3_384incctx>("SHA3-384", sha3_384_inc_init, sha3_384_inc_absorb, sha3_384_inc_ctx_clone, sha3_384_inc_ctx_release); inc_ops<sha3_512incctx>("SHA3-512", sha3_512_inc_init, sha3_512_inc_absorb, sha3_512_inc_ctx_clone, sha3_512_inc_ctx_release);
    om.push_back({"SHAKE-128 context: absorb, clone, squeeze both", [] { shake128ctx a, b; shake128_absorb(&a, cx->in[0], 300); shake128_ctx_clone(&b, &a); shake128_squeezeblocks(cx->out[0], 2, &b); shake128_squeezeblocks(cx->out[0], 1, &a); shake128_ctx_release(&a); shake128_ctx_release(&b); }});
    om.push_back({"SHAKE-256 context: absorb, clone, squeeze both", [] { shake256ctx a, b; shake256_absorb(&a, cx->in[0], 300); shake256_ctx_clone(&b, &a); shake256_squeezeblocks(cx->out[0], 2, &b); shake256_squeezeblocks(cx->out[0], 1, &a); shake256_ctx_release(&a); shake256_ctx_release(&b); }});
    om.push_back({"SHA3-384 one-shot", [] { sha3_384(cx->out[0], cx->in[0], 300); }});
    om.push_back({"SPHINCS+ combined sign and open", [] { env::reset("oom"); size_t l; Bytes sk = sub(ops::fix().A.sk, 3936, 128), pk = sub(ops::fix().A.pk, 1344, 64); SPH(crypto_sign)(cx->out[0], &l, cx->in[0], 9, sk.data()); SPH(crypto_sign_open)(cx->out[1], &l, cx->out[0], l, pk.data()); }});
    om.push_back({"Dilithium combined sign and open", [] { size_t l; Bytes sk = sub(ops::fix().A.sk, 64, 2560), pk = sub(ops::fix().A.pk, 32, 1312); DIL(crypto_sign)(cx->out[0], &l, cx->in[0], 9, sk.data()); DIL(crypto_sign_open)(cx->out[1], &l, cx->out[0], l, pk.data()); }});
}
}
static mc::Reg yo({"a_oom", "allocation faults: every operation of the alphabet (plus context cloning of all hash interfaces), with each of its first 200 allocations failing, and the first, second and last allocation of every allocation site",
    [](int) { oom_setup(); return (uint64_t)om.size(); },
    [](uint64_t i) {
        // the allocations of the operation, by site
        int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork();
        if (!c) { close(p[0]); alarm(100); env::oom_sites = new std::vector<void *>; env::faulty = true; om[i].run(); env::faulty = false; std::map<void *, std::vector<uint32_t>> at; auto &v = *env::oom_sites; for (uint32_t k = 0; k < v.size(); k++) { auto &l = at[v[k]]; if (l.size() < 2) l.push_back(k); else { if (l.size() == 2) l.push_back(k); l[2] = k; } } std::set<uint32_t> ks; for (auto &a : at) for (auto k : a.second) ks.insert(k); for (uint32_t k = 0; k < v.size() && k < (mc::tier ? 4000 : 200); k++) ks.insert(k); std::vector<uint32_t> o(ks.begin(), ks.end()); size_t n = o.size() * 4, q = 0; while (q < n) { ssize_t w = write(p[1], (char *)o.data() + q, n - q); if (w <= 0) _exit(1); q += w; } _exit(0); }
        close(p[1]); std::string b; char t[4096]; ssize_t k; while ((k = read(p[0], t, sizeof t)) > 0) b.append(t, k); close(p[0]); int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("'%s' does not complete with all allocations granted", om[i].name.c_str());
        std::vector<uint32_t> ks(b.size() / 4); if (!ks.empty()) memcpy(ks.data(), b.data(), ks.size() * 4); mc::outcome(ks.empty() ? "allocates nothing" : "allocates");
        for (uint32_t at : ks) { fflush(stdout); pid_t d = fork(); if (!d) { alarm(100); env::oom_at = at; env::oom_seen = 0; env::faulty = true; om[i].run(); env::faulty = false; _exit(env::oom_seen > (long)at ? 201 : 202); } waitpid(d, &st, 0); mc::transition(); mc::state(mc::mix(i, at));
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { mc::outcome("aborted"); continue; }
            if (WIFSIGNALED(st)) mc::fail("'%s': when allocation %u fails the library goes on without the memory and crashes (signal %d)", om[i].name.c_str(), at, WTERMSIG(st)); int e = WEXITSTATUS(st);
            if (e == 201) mc::fail("'%s': returns although allocation %u failed", om[i].name.c_str(), at); if (e == 202) mc::fail("'%s': number of allocations differs between two identical runs", om[i].name.c_str()); if (!e) mc::fail("'%s': when allocation %u fails the process ends reporting success", om[i].name.c_str(), at); mc::outcome(e == 111 ? "ended with status 111" : "ended with another failure status"); }
        mc::trace(); },
    [](uint64_t i) { return "allocation faults in: " + om[i].name; }, 300});
