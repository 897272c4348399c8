// C16: two threads, any pair of operations. (1) Dependence: every memory access of every operation is recorded; if no
// location outside a thread's own memory is written, all interleavings are equivalent to one (partial-order argument),
// otherwise the conflicting accesses become scheduling points. (2) Schedules: all preemptions at call boundaries.
#include "mt_rt.hpp"
#include "ops.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace {
using ops::Ctx; using mt::Thread;
struct Slot { Ctx cx; Thread t; uint8_t *mem, *stack, *arena; };
const int NT = 10; const size_t STK = 8 << 20, ARN = (size_t)1 << 30; Slot *S[NT];
struct Sum { Bytes base; std::map<uintptr_t, mt::Acc> shared; bool sync = false, wrote_input = false; uint64_t accesses = 0; std::vector<uint64_t> per_depth; }; std::vector<Sum> sum;
uint8_t *map(size_t n) { return (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void slots() { for (int i = 0; i < NT; i++) if (!S[i]) { S[i] = new Slot; Slot &s = *S[i]; s.mem = map(Ctx::need()); s.stack = map(STK); s.arena = map(ARN); s.cx.attach(s.mem); } }
void reset_thread(Slot &s, int id) { Thread &t = s.t; t.~Thread(); new (&t) Thread; t.id = id; t.stk_lo = (uintptr_t)s.stack; t.stk_hi = t.stk_lo + STK; t.in_lo = (uintptr_t)s.cx.in[0]; t.in_hi = (uintptr_t)s.cx.out[0]; t.prv_lo = t.in_hi; t.prv_hi = (uintptr_t)s.mem + Ctx::need(); t.len_lo = (uintptr_t)&s.cx.len; t.len_hi = t.len_lo + sizeof s.cx.len; t.ar_lo = (uintptr_t)s.arena; t.ar_hi = t.ar_lo + ARN; t.bump = s.arena; sem_init(&t.go, 0, 0); }
struct Job { Slot *s; int op; Bytes res; bool solo; };
void *thread_main(void *v) { Job *j = (Job *)v; Thread &t = j->s->t; mt::self = &t; if (!j->solo) while (sem_wait(&t.go)) ; t.on = true; int rc = ops::table()[j->op].run(j->s->cx); t.on = false; j->res = j->s->cx.result(rc); t.finished = true; if (t.ctl) sem_post(t.ctl); else if (t.other && !t.other->finished) sem_post(&t.other->go); mt::self = nullptr; return nullptr; }
void spawn(Job &j, pthread_t &th) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, j.s->stack, STK); if (pthread_create(&th, &a, thread_main, &j)) abort(); }
void put(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); }
// one operation alone, in a fresh process, with every access logged
void solo_child(int op, int fd) { reset_thread(*S[0], 0); S[0]->t.logging = true; Job j{S[0], op, {}, true}; pthread_t th; spawn(j, th); pthread_join(th, nullptr); Thread &t = S[0]->t; std::string o; uint64_t n = j.res.size(); put(o, &n, 8); put(o, j.res.data(), n); put(o, &t.accesses, 8); uint64_t f = t.sync | t.wrote_input << 1; put(o, &f, 8); n = t.per_depth.size(); put(o, &n, 8); put(o, t.per_depth.data(), n * 8); n = t.shared.size(); if (n > 100000) n = 100000; put(o, &n, 8); uint64_t k = 0; for (auto &a : t.shared) { if (k++ == n) break; put(o, &a.first, 8); put(o, &a.second, sizeof a.second); } size_t w = 0; while (w < o.size()) { ssize_t q = write(fd, o.data() + w, o.size() - w); if (q <= 0) _exit(1); w += q; } _exit(0); }
void prepare() {
    ops::build(); slots(); auto &T = ops::table(); if (!sum.empty()) return; sum.resize(T.size()); size_t next = 0; struct L { int fd; size_t op; pid_t p; }; std::vector<L> live;
    std::vector<size_t> order; for (int c = 2; c >= 0; c--) for (size_t i = 0; i < T.size(); i++) if (T[i].cost == c) order.push_back(i); // slow ones first
    while (next < T.size() || !live.empty()) { while (next < T.size() && live.size() < 8) { int p[2]; if (pipe(p)) abort(); fflush(stdout); size_t op = order[next++]; pid_t c = fork(); if (!c) { close(p[0]); solo_child((int)op, p[1]); } close(p[1]); live.push_back({p[0], op, c}); }
        L l = live.front(); live.erase(live.begin()); std::string o; char b[65536]; ssize_t k; while ((k = read(l.fd, b, sizeof b)) > 0) o.append(b, k); close(l.fd); int st; waitpid(l.p, &st, 0); if (o.size() < 8) mc::fail("operation '%s' crashes when run in a thread of its own", T[l.op].name.c_str());
        Sum &s = sum[l.op]; const char *q = o.data(); auto g = [&] { uint64_t v; memcpy(&v, q, 8); q += 8; return v; }; uint64_t n = g(); s.base.assign(q, q + n); q += n; s.accesses = g(); uint64_t f = g(); s.sync = f & 1; s.wrote_input = f >> 1 & 1; n = g(); for (uint64_t i = 0; i < n; i++) s.per_depth.push_back(g()); n = g(); for (uint64_t i = 0; i < n; i++) { uintptr_t a = g(); mt::Acc c; memcpy(&c, q, sizeof c); q += sizeof c; s.shared[a] = c; } }
}
// the locations on which the two operations conflict without a common lock
std::vector<uintptr_t> conflicts(const Sum &a, const Sum &b) { std::vector<uintptr_t> v; for (auto &x : a.shared) { auto y = b.shared.find(x.first); if (y == b.shared.end()) continue; auto &p = x.second, &q = y->second; bool bad = (p.w && q.w && !(p.wlocks & q.wlocks)) || (p.w && q.r && !(p.wlocks & q.rlocks)) || (p.r && q.w && !(p.rlocks & q.wlocks)); if (bad) v.push_back(x.first); } return v; }
// runs a and b under a schedule in a fresh process: thread 0 first, preempted at its point k0, thread 1 preempted at its point k1 (-1: never)
void schedule(int a, int b, int depth, long k0, long k1, const std::vector<uintptr_t> &pts) {
    int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork(); auto &T = ops::table();
    if (!c) { close(p[0]); alarm(100); for (auto x : pts) mt::add_conflict(x); for (int i = 0; i < 2; i++) { reset_thread(*S[i], i); S[i]->t.maxdepth = depth; } S[0]->t.other = &S[1]->t; S[1]->t.other = &S[0]->t; S[0]->t.preempt_at = k0; S[1]->t.preempt_at = k1; Job j0{S[0], a, {}, false}, j1{S[1], b, {}, false}; pthread_t h0, h1; spawn(j0, h0); spawn(j1, h1); sem_post(&S[0]->t.go); pthread_join(h0, nullptr); if (!S[1]->t.finished) sem_post(&S[1]->t.go); pthread_join(h1, nullptr); mc::transition(S[0]->t.points + S[1]->t.points); std::string m; if (j0.res != sum[a].base) m = "first thread's result differs from running alone"; else if (j1.res != sum[b].base) m = "second thread's result differs from running alone"; if (!m.empty()) { (void)!write(p[1], m.data(), m.size()); _exit(3); } _exit(0); }
    close(p[1]); char buf[400]; std::string m; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) m.append(buf, k); close(p[0]); int st; waitpid(c, &st, 0); std::string d = mc::fmt("'%s' with '%s', first preempted at point %ld, second at %ld (call depth %d)", T[a].name.c_str(), T[b].name.c_str(), k0, k1, depth);
    if (WIFSIGNALED(st)) mc::fail("%s: %s", d.c_str(), WTERMSIG(st) == SIGALRM ? "no progress" : mc::fmt("crashes with signal %d", WTERMSIG(st)).c_str()); if (WEXITSTATUS(st)) mc::fail("%s: %s", d.c_str(), m.c_str()); mc::state(mc::mix(mc::mix(a, b), mc::mix(k0 + 9, k1 + 9)));
}
// n threads run the same operation (n = 2: a and b); each is stopped at its point k, counting every shared access and every
// synchronisation operation, before the next one starts; then all go on, last or first stopped first. False: no thread reached its point.
bool nest(int a, int b, int n, long k, bool lifo) {
    int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t c = fork(); auto &T = ops::table();
    if (!c) { close(p[0]); alarm(100); mt::all_points = true; sem_t ctl; sem_init(&ctl, 0, 0); std::vector<Job> j(n); std::vector<pthread_t> h(n); bool hit = false; auto turn = [&](int i) { sem_post(&S[i]->t.go); while (sem_wait(&ctl)) ; };
        for (int i = 0; i < n; i++) { reset_thread(*S[i], i); S[i]->t.ctl = &ctl; S[i]->t.preempt_at = k; j[i] = Job{S[i], i % 2 ? b : a, {}, false}; spawn(j[i], h[i]); }
        for (int i = 0; i < n; i++) { turn(i); hit |= !S[i]->t.finished; }
        for (bool more = true; more;) { more = false; for (int q = 0; q < n; q++) { int i = lifo ? n - 1 - q : q; if (S[i]->t.finished) continue; turn(i); more |= !S[i]->t.finished; } }
        std::string m; uint64_t pts = 0; for (int i = 0; i < n; i++) { pthread_join(h[i], nullptr); pts += S[i]->t.points; if (j[i].res != sum[j[i].op].base) m = mc::fmt("the result of thread %d differs from running alone", i); } mc::transition(pts); if (!m.empty()) { (void)!write(p[1], m.data(), m.size()); _exit(3); } _exit(hit ? 0 : 4); }
    close(p[1]); char buf[400]; std::string m; ssize_t r; while ((r = read(p[0], buf, sizeof buf)) > 0) m.append(buf, r); close(p[0]); int st; waitpid(c, &st, 0); std::string d = mc::fmt("%d threads of '%s' and '%s', each stopped at point %ld, then resumed %s", n, T[a].name.c_str(), T[b].name.c_str(), k, lifo ? "last first" : "first first");
    if (WIFSIGNALED(st)) mc::fail("%s: %s", d.c_str(), WTERMSIG(st) == SIGALRM ? "no progress" : mc::fmt("crashes with signal %d", WTERMSIG(st)).c_str()); if (WEXITSTATUS(st) == 4) return false; if (WEXITSTATUS(st)) mc::fail("%s: %s", d.c_str(), m.c_str()); mc::state(mc::mix(mc::mix(a, b), mc::mix(k + 9, n * 2 + lifo))); return true;
}
// Synchronised code: schedules within a time limit (the number of points is unbounded); where it ends early, the outcome says so.
void synced(int a, int b, const std::vector<uintptr_t> &v) {
    static double spent = 0; auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }; double t0 = now(), lim = (a == b ? 20 : 0.2) * (mc::tier ? 10 : 1); bool cut = false; if (spent > (mc::tier ? 3600 : 330)) { mc::outcome("synchronised: not explored, time limit"); return; }
    auto over = [&](double share) { bool o = now() - t0 > lim * share; cut |= o; return o; };
    auto next = [](long k) { return k < 40 ? k + 1 : k + k / 2; };
    auto both = [&](int n, double share) { for (long k = 0; k < 1000000000 && !over(share); k = next(k)) if (!nest(a, b, n, k, true) || (k % 3 == 0 && !nest(a, b, n, k, false))) break; };
    if (!v.empty()) for (uint64_t k = 0; k < 200 && !over(0.3); k++) schedule(a, b, 0, (long)k, -1, v);
    both(2, 0.6); if (a == b) both(NT, 1);
    spent += now() - t0; mc::outcome(cut ? "synchronised: schedules explored up to a time limit" : "synchronised: schedules give the sequential results");
}
uint64_t npoints(const Sum &s, int depth) { uint64_t n = 0; for (int d = 1; d <= depth && d < (int)s.per_depth.size(); d++) n += s.per_depth[d]; return n; }
int pick_depth(const Sum &s, uint64_t cap) { int d = 1; while (d + 1 < (int)s.per_depth.size() && npoints(s, d + 1) <= cap) d++; return d; }
mc::Reg m1({"t_conflicts", "all ordered pairs of operations: every memory access of both, compared location by location; no location that both can reach may be written without a common lock",
    [](int) -> uint64_t { prepare(); return ops::table().size() * ops::table().size(); },
    [](uint64_t i) { size_t n = sum.size(); int a = i / n, b = i % n; auto &T = ops::table(); if (a == b) mc::transition(sum[a].accesses); mc::state(mc::mix(a, b));
        if (sum[a].wrote_input) mc::fail("'%s' writes to its input buffers, which another thread may be using", T[a].name.c_str());
        auto v = conflicts(sum[a], sum[b]); if (v.empty() && !(sum[a].sync && sum[b].sync)) { mc::outcome("independent: one interleaving up to equivalence"); mc::trace(); return; }
        if (!v.empty() && !sum[a].sync && !sum[b].sync) { // unsynchronised: a data race; look for a schedule with a wrong result to show
            std::string shown; uint64_t n0 = 60; time_t t0 = time(nullptr); for (uint64_t k = 0; k < n0 && shown.empty() && time(nullptr) - t0 < 10; k++) { try { schedule(a, b, 0, (long)k, -1, v); } catch (...) { shown = mc::fmt(" (results differ when the first is preempted at conflicting access %lu)", (unsigned long)k); } }
            mc::fail("data race: '%s' and '%s' both use %zu byte(s) of static memory at %#lx, at least one writes, no lock%s", T[a].name.c_str(), T[b].name.c_str(), v.size(), (unsigned long)v[0], shown.c_str()); }
        synced(a, b, v); mc::trace(); },
    [](uint64_t i) { size_t n = ops::table().size(); return ops::table()[i / n].name + " || " + ops::table()[i % n].name; }, 200});
const char *CORE[] = {"keygen seed A", "compact sign A", "compact sign B", "compact open A", "compact open, Dilithium part bad", "compact verify B", "full open A", "Dilithium sign 1", "Dilithium verify 0", "Ed25519 sign A", "Ed25519 open 0", "box", "SHAKE-256 incremental", "seed expansion A", "random key generation", "random bytes", "SPHINCS+ verify", "SPHINCS+ keygen A", "full sign A"};
struct SC { int a, b; long k0, k1; int da; }; std::vector<SC> scs;
mc::Reg m2({"t_schedules", "schedules of two threads over 19 representative operations: for every ordered pair, the first preempted at every call boundary down to a depth with at most N boundaries (thorough: both preempted at every pair of boundaries)",
    [](int t) -> uint64_t { prepare(); scs.clear(); std::vector<int> v; auto &T = ops::table(); for (auto *n : CORE) for (size_t i = 0; i < T.size(); i++) if (T[i].name == n) v.push_back((int)i);
        for (int a : v) for (int b : v) { int cost = std::max(T[a].cost, T[b].cost); if (cost == 2 && !(t || a == b)) continue; uint64_t cap = cost == 2 ? (t ? 12 : 4) : t ? 90 : 14; int d = pick_depth(sum[a], cap); uint64_t n = std::min<uint64_t>(npoints(sum[a], d), cap); for (uint64_t k = 0; k < n; k++) { scs.push_back({a, b, (long)k, -1, d}); if (t && cost < 2 && n <= 40) { uint64_t nb = std::min<uint64_t>(npoints(sum[b], d), 12); for (uint64_t l = 0; l < nb; l++) scs.push_back({a, b, (long)k, (long)l, d}); } } }
        return scs.size(); },
    [](uint64_t i) { auto &s = scs[i]; schedule(s.a, s.b, s.da, s.k0, s.k1, {}); mc::outcome("schedule gives the sequential results"); mc::trace(); },
    [](uint64_t i) { auto &s = scs[i]; return mc::fmt("%s || %s preempted at call boundary %ld / %ld, depth %d", ops::table()[s.a].name.c_str(), ops::table()[s.b].name.c_str(), s.k0, s.k1, s.da); }, 150});
}
