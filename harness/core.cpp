#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__) || defined(MC_ASAN)
#undef MC_ASAN
#define MC_ASAN 1
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *);
#endif
namespace mc {
static std::vector<Module> &mods() { static std::vector<Module> m; return m; }
void add(const Module &m) { mods().push_back(m); }
int tier = 0; uint64_t seed = 1;
struct Viol { uint64_t cs; int worker; int kind; char msg[1500]; }; // kind 1 mismatch 2 crash 3 hang
struct Slot { volatile uint64_t cur; volatile double t0; volatile int active; volatile int done; uint64_t transitions, traces, domain, cases; int nviol; Viol v[3]; char cmsg[300]; };
struct Shared { Slot s[64]; };
static Shared *sh; static Slot *me; static std::unordered_set<uint64_t> *states; static std::map<std::string, uint64_t> *outc; static std::vector<std::string> *samples; static std::set<std::string> *knownset;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void transition(uint64_t n) { if (me) me->transitions += n; }
void state(uint64_t h) { if (states) states->insert(h); }
void trace() { if (me) me->traces++; }
void domain(uint64_t n) { if (me) me->domain += n; }
void sample(const std::string &s) { if (samples && samples->size() < 2) samples->push_back(s); }
void outcome(const char *l) { if (outc) (*outc)[l]++; }
struct Violation { std::string msg; };
void fail(const char *f, ...) { char b[1400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Violation{b}; }
void known(const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); if (knownset) knownset->insert(b); }
uint64_t hash(const void *p, size_t n, uint64_t h) { const uint8_t *b = (const uint8_t *)p; while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = mix(h, w); b += 8; n -= 8; } uint64_t w = n + 1; while (n--) w = w << 8 | *b++; return mix(h, w); }
Bytes prf(const std::string &l, size_t n) { ref::Sponge s(168, 0x1F); s.absorb((const uint8_t *)l.data(), l.size()); s.absorb((const uint8_t *)&seed, 8); return s.squeeze(n); }
std::string hex(const uint8_t *p, size_t n, size_t max) { std::string r; char t[4]; for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 4, "%02x", p[i]); r += t; } if (n > max) r += "..(" + std::to_string(n) + ")"; return r; }
std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

static const size_t PG = 4096;
int shift = 0;
GBuf::GBuf(size_t n_, bool left_, uint8_t fill) : n(n_), left(left_) {
#ifdef MC_ASAN
    map = nullptr; maplen = shift; p = (uint8_t *)__real_malloc(n + shift ? n + shift : 1) + shift; memset(p, fill, n);
#else
    size_t body = (n + shift + PG - 1) / PG * PG; if (!body) body = PG; maplen = body + 2 * PG;
    map = (uint8_t *)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == MAP_FAILED) abort();
    mprotect(map + PG, body, PROT_READ | PROT_WRITE); memset(map + PG, 0x5C, body); p = shift ? map + PG + shift : left ? map + PG : map + PG + body - n; memset(p, fill, n);
#endif
}
GBuf::GBuf(const Bytes &b, bool l) : GBuf(b.size(), l) { if (n) memcpy(p, b.data(), n); }
GBuf::~GBuf() {
#ifdef MC_ASAN
    __real_free(p - maplen);
#else
    munmap(map, maplen);
#endif
}
void GBuf::readonly() { if (map) mprotect(map + PG, maplen - 2 * PG, PROT_READ); }
void GBuf::writable() { if (map) mprotect(map + PG, maplen - 2 * PG, PROT_READ | PROT_WRITE); }
void GBuf::check(const char *what) const {
    if (!map) return;
    uint8_t *b = map + PG, *e = map + maplen - PG; for (uint8_t *q = b; q < e; q++) if ((q < p || q >= p + n) && *q != 0x5C) fail("%s: wrote outside the %zu-byte buffer (at offset %ld)", what, n, (long)(q - p));
}
static int run_case(const Module &m, uint64_t i, Viol *v) { // 0 ok, 1 violation
    try { m.run(i); return 0; } catch (Violation &x) { if (v) { v->cs = i; v->kind = 1; snprintf(v->msg, sizeof v->msg, "%s", x.msg.c_str()); } return 1; }
}
static void crash_note(int sig) { // async-signal: leave the signal number in the slot and die with it
    if (me) snprintf(me->cmsg, sizeof me->cmsg, "signal %d", sig);
    signal(sig, SIG_DFL); raise(sig);
}
static void dump_states(const std::string &path) { FILE *f = fopen(path.c_str(), "wb"); if (!f) return; std::vector<uint64_t> v(states->begin(), states->end()); fwrite(v.data(), 8, v.size(), f); fclose(f); }
static void worker(const Module &m, uint64_t n, int w, int W, const std::string &tmp, double deadline) {
    me = &sh->s[w]; states = new std::unordered_set<uint64_t>; outc = new std::map<std::string, uint64_t>; samples = new std::vector<std::string>; knownset = new std::set<std::string>;
    for (uint64_t i = w; i < n; i += W) {
        if (deadline > 0 && now() > deadline) { me->active = 2; break; }
        me->cur = i; me->t0 = now(); me->active = 1;
        if (run_case(m, i, &me->v[me->nviol])) { me->v[me->nviol].worker = w; me->nviol++; if (me->nviol == 3) break; }
        me->cases++; if (i == (uint64_t)w && m.describe) sample(m.describe(i));
    }
    me->t0 = 0; if (me->active != 2) me->active = 0;
    dump_states(tmp + ".st" + std::to_string(w));
    FILE *f = fopen((tmp + ".oc" + std::to_string(w)).c_str(), "w"); if (f) { for (auto &k : *outc) fprintf(f, "O\t%s\t%lu\n", k.first.c_str(), (unsigned long)k.second); for (auto &s : *samples) { std::string t = s; for (auto &c : t) if (c == '\n' || c == '\t') c = ' '; fprintf(f, "S\t%s\n", t.c_str()); } for (auto &k : *knownset) fprintf(f, "K\t%s\n", k.c_str()); fclose(f); }
    me->done = 1; fflush(stdout); _exit(0);
}
static std::string jstr(const std::string &s) { std::string r = "\""; char t[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; } return r + "\""; }
static const Module *find(const char *n) { for (auto &m : mods()) if (!strcmp(m.name, n)) return &m; return nullptr; }
// Replays: history 0 = the case alone, otherwise the worker's whole prefix with stride W.
// exit code 0 ok, 3 violation; killed by a signal: crash
static int replay(const Module &m, uint64_t cs, int w, int W, bool prefix, double limit, std::string &msg) {
    int pfd[2]; if (pipe(pfd)) return 0; fflush(stdout); pid_t c = fork();
    if (!c) { close(pfd[0]); alarm((unsigned)limit + 1); Viol v; memset(&v, 0, sizeof v); me = nullptr; int rc = 0; try { m.setup(tier); } catch (Violation &x) { snprintf(v.msg, sizeof v.msg, "%s", x.msg.c_str()); (void)!write(pfd[1], v.msg, strlen(v.msg)); _exit(3); }
        for (uint64_t i = prefix ? w : cs; i <= cs; i += W) { rc = run_case(m, i, &v); if (rc && i == cs) break; }
        if (rc) { (void)!write(pfd[1], v.msg, strlen(v.msg)); _exit(3); } _exit(0); }
    close(pfd[1]); char b[1600]; ssize_t k; msg.clear(); while ((k = read(pfd[0], b, sizeof b)) > 0) msg.append(b, k); close(pfd[0]); int st; waitpid(c, &st, 0);
    if (WIFSIGNALED(st)) { msg = WTERMSIG(st) == SIGALRM ? "does not terminate within the limit" : "crashed with signal " + std::to_string(WTERMSIG(st)); return WTERMSIG(st) == SIGKILL ? 0 : 3; }
    if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3) { msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " in the middle of a call (sanitizer report or exit())"; return 3; }
    return WEXITSTATUS(st);
}
static int usage() { fprintf(stderr, "mc --list | mc --run MODULE TIER WORKERS OUT.json [BUDGET_S] | mc --replay MODULE TIER CASE [W STRIDE]\n"); return 2; }
} // namespace mc
using namespace mc;
int mc_main(int argc, char **argv) {
    mc::seed = 1; // case data must not depend on the environment: enumeration, not sampling
    if (argc >= 2 && !strcmp(argv[1], "--list")) { for (auto &m : mods()) printf("%s\t%s\n", m.name, m.space); return 0; }
    if (argc < 5) return usage();
    const Module *m = find(argv[2]); if (!m) { fprintf(stderr, "no module %s\n", argv[2]); return 2; }
    mc::tier = atoi(argv[3]);
    if (!strcmp(argv[1], "--replay")) {
        uint64_t cs = strtoull(argv[4], 0, 10); int w = argc > 5 ? atoi(argv[5]) : 0, W = argc > 6 ? atoi(argv[6]) : 1; std::string msg;
        int rc = replay(*m, cs, w, W, argc > 5, 300, msg);
        if (cs != ~0ULL && m->describe) { try { m->setup(mc::tier); printf("case: %s\n", m->describe(cs).c_str()); } catch (...) {} }
        printf("%s %s\n", rc ? "VIOLATED:" : "ok", msg.c_str()); return rc ? 1 : 0;
    }
    if (strcmp(argv[1], "--run") || argc < 6) return usage();
    int W = atoi(argv[4]); if (W < 1) W = 1; if (W > 60) W = 60; const char *out = argv[5]; double budget = argc > 6 ? atof(argv[6]) : 0; std::string tmp = std::string(out) + ".tmp";
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(sh, 0, sizeof *sh);
    uint64_t *ncases = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *ncases = 0;
    double t0 = now(); signal(SIGPIPE, SIG_IGN);
    struct Cand { uint64_t cs; int w; int kind; std::string msg; }; std::vector<Cand> cands;
    // setup runs in a child (it executes implementation code); that child then becomes the forker
    fflush(stdout); pid_t boss = fork();
    if (!boss) {
        setpgid(0, 0); uint64_t n; me = &sh->s[63];
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) if (!getenv("ASAN_OPTIONS")) signal(s, crash_note);
        alarm(300);
        try { n = m->setup(mc::tier); } catch (Violation &x) { Viol &v = sh->s[63].v[0]; v.cs = ~0ULL; v.kind = 1; snprintf(v.msg, sizeof v.msg, "%s", x.msg.c_str()); sh->s[63].nviol = 1; _exit(0); }
        alarm(0); *ncases = n; sh->s[63].done = 1;
        double dl = budget > 0 ? now() + budget : 0; std::map<pid_t, int> kids; std::map<int, uint64_t> resume;
        for (int w = 0; w < W; w++) { pid_t c = fork(); if (!c) worker(*m, n, w, W, tmp, dl); kids[c] = w; }
        while (!kids.empty()) {
            int st; pid_t c = waitpid(-1, &st, WNOHANG);
            if (c > 0) { int w = kids[c]; kids.erase(c); Slot &s = sh->s[w];
                if (!s.done && s.nviol < 3) { Viol &v = s.v[s.nviol]; if (v.kind != 3) { v.kind = 2; v.cs = s.cur; v.worker = w; snprintf(v.msg, sizeof v.msg, "crash: %s status 0x%x", s.cmsg, st); } s.nviol++; }
                continue; }
            double t = now(); for (auto &k : kids) { Slot &s = sh->s[k.second]; double ts = s.t0; if (s.active == 1 && ts > 0 && t - ts > m->case_timeout && s.nviol < 3 && s.v[s.nviol].kind != 3) { Viol &v = s.v[s.nviol]; v.kind = 3; v.cs = s.cur; v.worker = k.second; snprintf(v.msg, sizeof v.msg, "hang: no result after %.0f s", t - ts); kill(k.first, SIGKILL); } }
            usleep(5000);
        }
        _exit(0);
    }
    int st; waitpid(boss, &st, 0);
    if (!sh->s[63].done && !sh->s[63].nviol) { cands.push_back({~0ULL, 0, 2, "preparing the exploration (valid calls only) crashed or did not terminate: " + std::string(sh->s[63].cmsg)}); }
    for (int w = 0; w < 64; w++) for (int k = 0; k < sh->s[w].nviol; k++) { Viol &v = sh->s[w].v[k]; cands.push_back({v.cs, w == 63 ? 0 : w, v.kind, v.msg}); }
    std::sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.cs < b.cs; });
    std::string vj; int nv = 0; std::string notes;
    for (auto &c : cands) {
        if (nv >= 3) break;
        std::string msg, how; double lim = c.kind == 3 ? m->case_timeout * 4 : 240;
        if (replay(*m, c.cs == ~0ULL ? 0 : c.cs, c.w, W, false, lim, msg) == 3) how = "alone";
        else if (c.cs != ~0ULL && c.kind != 3 && replay(*m, c.cs, c.w, W, true, 240, msg) == 3) how = "prefix";
        else if (c.kind == 1) { how = "nondeterministic"; msg = c.msg; }
        else { notes += "unconfirmed: case " + std::to_string(c.cs) + " " + c.msg + "; "; continue; }
        std::string d; if (c.cs != ~0ULL && m->describe) { // description may need setup: run it in a child
            int p[2]; if (!pipe(p)) { fflush(stdout); pid_t q = fork(); if (!q) { alarm(120); try { m->setup(mc::tier); std::string s = m->describe(c.cs); (void)!write(p[1], s.data(), s.size()); } catch (...) {} _exit(0); } close(p[1]); char b[2048]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) d.append(b, k); close(p[0]); int s2; waitpid(q, &s2, 0); } }
        vj += std::string(nv ? "," : "") + "{\"case\":" + (c.cs == ~0ULL ? "0" : std::to_string(c.cs)) + ",\"worker\":" + std::to_string(c.w) + ",\"stride\":" + std::to_string(W) + ",\"how\":" + jstr(how) + ",\"describe\":" + jstr(d) + ",\"msg\":" + jstr(msg) + "}"; nv++;
    }
    std::unordered_set<uint64_t> all; std::map<std::string, uint64_t> oc; std::vector<std::string> sm; std::set<std::string> kn; uint64_t tr = 0, tc = 0, dm = 0, cs = 0; bool capped = false;
    for (int w = 0; w < W; w++) { Slot &s = sh->s[w]; tr += s.transitions; tc += s.traces; dm += s.domain; cs += s.cases; if (s.active == 2) capped = true;
        std::string p = tmp + ".st" + std::to_string(w); if (FILE *f = fopen(p.c_str(), "rb")) { uint64_t b[4096]; size_t k; while ((k = fread(b, 8, 4096, f)) > 0) all.insert(b, b + k); fclose(f); } unlink(p.c_str());
        p = tmp + ".oc" + std::to_string(w); if (FILE *f = fopen(p.c_str(), "r")) { char l[4096]; while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0] == 'O') { char *q = strchr(l + 2, '\t'); if (q) { *q = 0; oc[l + 2] += strtoull(q + 1, 0, 10); } } else if (l[0] == 'S' && sm.size() < 3) sm.push_back(l + 2); else if (l[0] == 'K') kn.insert(l + 2); } fclose(f); } unlink(p.c_str()); }
    FILE *f = fopen(out, "w"); if (!f) return 2;
    fprintf(f, "{\"module\":%s,\"space\":%s,\"cases_total\":%lu,\"cases_run\":%lu,\"capped\":%s,\"states\":%zu,\"transitions\":%lu,\"traces\":%lu,\"domain_points\":%lu,\"wall_s\":%.3f,\"notes\":%s,", jstr(m->name).c_str(), jstr(m->space).c_str(), (unsigned long)*ncases, (unsigned long)cs, capped ? "true" : "false", all.size(), (unsigned long)tr, (unsigned long)tc, (unsigned long)dm, now() - t0, jstr(notes).c_str());
    fprintf(f, "\"outcomes\":{"); bool first = true; for (auto &k : oc) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long)k.second); first = false; }
    fprintf(f, "},\"known\":["); first = true; for (auto &k : kn) { fprintf(f, "%s%s", first ? "" : ",", jstr(k).c_str()); first = false; }
    fprintf(f, "],\"samples\":["); first = true; for (auto &k : sm) { fprintf(f, "%s%s", first ? "" : ",", jstr(k).c_str()); first = false; }
    fprintf(f, "],\"violations\":[%s]}\n", vj.c_str()); fclose(f);
    return 0;
}
