#include <functional>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
// C06 random source under every answer of the operating system, C07 randomness failure and freshness, C18 facade.
#include "gen.hpp"
#include "os.hpp"
#include <sys/mman.h>
#include <cerrno>
using namespace im; using namespace gen; using mc::fmt; using mc::hex;
#define DIL(x) PQCLEAN_DILITHIUM2_CLEAN_##x
#define SPH(x) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##x
extern "C" { int rb_getrandom(void *, size_t); int rb_syscall(void *, size_t); int rb_urandom(void *, size_t);
__attribute__((weak)) int rb_win32(void *, size_t); __attribute__((weak)) int rb_bsd(void *, size_t); __attribute__((weak)) int rb_wasi(void *, size_t); __attribute__((weak)) int rb_kfreebsd(void *, size_t); __attribute__((weak)) int rb_em(void *, size_t); }
namespace {
// ---------------------------------------------------------------- C06
typedef int (*RB)(void *, size_t);
struct Backend { const char *name; RB f; bool device; };
enum { NB = 8 };
const Backend BK[NB] = {{"getrandom", rb_getrandom, false}, {"raw system call", rb_syscall, false}, {"/dev/urandom", rb_urandom, true}, {"kFreeBSD device", rb_kfreebsd, true}, {"Windows", rb_win32, false}, {"BSD", rb_bsd, false}, {"WASI", rb_wasi, false}, {"JavaScript", rb_em, false}};
bool absent(const Backend &b) { if (b.f) return false; mc::outcome(fmt("%s configuration not available from this source", b.name).c_str()); mc::trace(); return true; }
void prime(const Backend &b) { os::w.noent = b.f == rb_kfreebsd; os::w.zeroes = b.f == rb_win32; }
const size_t SIZES[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 40, 64, 96, 160, 255, 256, 257, 4096, 4097, 65535, 65536, 65537, 70000, 131073};
void explore_rb(const Backend &b, size_t n, int bound, bool left) {
    os::ex = os::Explorer(); os::ex.bound = bound; uint64_t runs = 0;
    mc::GBuf g(n, left);
    do {
        memset(g.p, 0xA5, n); os::ex.begin(); os::reset(g.p, n); prime(b);
        os::active = true; int rc = b.f(g.p, n); os::active = false; if (os::w.unavailable) { mc::outcome("JavaScript cannot be run here"); mc::trace(); return; }
        runs++; mc::transition(os::w.calls); mc::state(mc::hash(os::ex.choice.data(), os::ex.choice.size() * sizeof(int), mc::mix(n, &b - BK)));
        std::string ctx = fmt("%s, %zu bytes, answers [%s]", b.name, n, os::ex.log.c_str());
        if (!os::w.bad.empty()) mc::fail("%s: %s", ctx.c_str(), os::w.bad.c_str());
        g.check("random buffer");
        if (rc == 0) {
            if (os::w.fatal) mc::fail("%s: unrecoverable error but success reported", ctx.c_str());
            if (os::w.delivered.size() != n || g.bytes() != os::w.delivered) mc::fail("%s: success but the buffer does not hold the %zu delivered bytes", ctx.c_str(), os::w.delivered.size());
            mc::outcome("filled");
        } else {
            if (!os::w.fatal && !os::w.tolerate) mc::fail("%s: failure %d although every answer was recoverable", ctx.c_str(), rc);
            mc::outcome("failed after an unrecoverable error");
        }
        if (!os::w.open_fds.empty()) mc::fail("%s: descriptor of %s left open", ctx.c_str(), os::w.open_fds[0].second.c_str());
        if (os::w.streams) mc::fail("%s: entropy stream left open", ctx.c_str());
        if (!os::w.handles.empty()) mc::fail("%s: cryptographic provider handle left open", ctx.c_str());
        for (size_t i = os::w.delivered.size(); i < n; i++) if (g.p[i] != 0xA5 && !(os::w.zeroes && g.p[i] == 0)) mc::fail("%s: wrote byte %zu which the operating system did not deliver", ctx.c_str(), i);
    } while (os::ex.next());
    mc::domain(runs); mc::trace();
}
mc::Reg r1({"r_answers", "random source, eight configurations (getrandom, raw system call, device file, kFreeBSD, Windows, BSD, WASI, JavaScript) x 26 request sizes: every sequence of operating-system answers with up to D deviations from the ideal answer (quick D=5/4/3 by request size, thorough 1-2 more)",
    [](int) -> uint64_t { return NB * 26 * 2; },
    [](uint64_t i) { mc::Idx x(i); int b = x.take(NB); if (absent(BK[b])) return; int s = x.take(26); bool left = x.take(2); size_t n = SIZES[s]; int D = n <= 6 ? 5 : n <= 64 ? 4 : 3; if (mc::tier) D += BK[b].device ? 1 : 2; if (left && D > 2) D--; explore_rb(BK[b], n, D, left); },
    [](uint64_t i) { mc::Idx x(i); int b = x.take(NB); int s = x.take(26); return fmt("%s backend, request of %zu bytes, all answer sequences", BK[b].name, SIZES[s]); }, 300});
mc::Reg r2({"r_interrupts", "random source: k interruptions in a row, for every k up to 300, before each request; and byte-by-byte delivery of every size up to 400",
    [](int) -> uint64_t { return 4 * 701; },
    [](uint64_t i) { const Backend &b = BK[i % 4]; if (absent(b)) return; uint64_t v = i / 4; os::ex = os::Explorer(); os::ex.bound = 100000; size_t n = v <= 300 ? 8 : v - 300; mc::GBuf g(n, i >> 2 & 1); os::reset(g.p, n); prime(b); os::ex.begin();
        // scripted: the choice vector is fixed in advance
        if (b.device) { os::ex.choice.push_back(0); if (!os::w.noent) os::ex.choice.push_back(0); }
        if (v <= 300) for (uint64_t k = 0; k < v; k++) os::ex.choice.push_back(1);
        else { size_t left = n; while (left > 1) { int errs = b.device ? 2 : 4; os::ex.choice.push_back(2 + (b.device ? 1 : 0) + errs); left--; } } // first short count: one byte
        os::ex.alts.assign(os::ex.choice.size(), 1); os::active = true; int rc = b.f(g.p, n); os::active = false; mc::transition(os::w.calls); mc::state(mc::mix(i, n));
        if (rc || g.bytes() != os::w.delivered || os::w.delivered.size() != n || !os::w.bad.empty() || !os::w.open_fds.empty()) mc::fail("%s backend: %s: rc %d, %zu of %zu bytes delivered, %s", b.name, v <= 300 ? fmt("%lu interruptions in a row", (unsigned long)v).c_str() : "one byte at a time", rc, os::w.delivered.size(), n, os::w.bad.c_str());
        mc::outcome("filled"); mc::trace(); },
    [](uint64_t i) { return fmt("%s backend, case %lu", BK[i % 4].name, (unsigned long)(i / 4)); }, 60});
mc::Reg r3({"r_big", "random source: request sizes around the 33554431-byte chunk limit and twice it with up to one deviating answer, and above 2^31 and 2^32 bytes, on all eight configurations",
    [](int) -> uint64_t { return NB * 10; },
    [](uint64_t i) { const size_t S[] = {33554430, 33554431, 33554432, 33554433, 67108862, 67108863, 67108864, ((size_t)1 << 31) + 3, ((size_t)1 << 32) + 5, ((size_t)1 << 32) + 33554431}; const Backend &b = BK[i % NB]; if (absent(b)) return; size_t n = S[i / NB]; if (b.f == rb_em && n != S[7]) return; /* a size in wasm32 has 32 bits */ bool huge = n > (1u << 30); uint8_t *p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) mc::fail("harness: no address space"); os::ex = os::Explorer(); os::ex.bound = huge ? 0 : 1; const size_t st = huge ? 1 << 22 : 4093;
        do { for (size_t k = 0; k < n; k += st) p[k] = (uint8_t)~os::byte_at(k); p[n - 1] = (uint8_t)~os::byte_at(n - 1); os::ex.begin(); os::reset(p, n); prime(b); os::w.big = true; os::active = true; int rc = b.f(p, n); os::active = false; mc::transition(os::w.calls); mc::state(mc::hash(os::ex.choice.data(), os::ex.choice.size() * sizeof(int), i));
            std::string ctx = fmt("%s, %zu bytes, answers [%s]", b.name, n, os::ex.log.c_str()); if (!os::w.bad.empty()) mc::fail("%s: %s", ctx.c_str(), os::w.bad.c_str());
            if (rc == 0) { if (os::w.fatal || os::w.delivered_big != n || p[n - 1] != os::byte_at(n - 1)) mc::fail("%s: success with %lu bytes delivered", ctx.c_str(), (unsigned long)os::w.delivered_big); mc::outcome("filled"); } else { if (!os::w.fatal && !os::w.tolerate) mc::fail("%s: failure %d", ctx.c_str(), rc); mc::outcome("failed after an unrecoverable error"); }
            if (!os::w.open_fds.empty() || os::w.streams || !os::w.handles.empty()) mc::fail("%s: descriptor or handle left open", ctx.c_str()); } while (os::ex.next());
        munmap(p, n); mc::trace(); },
    [](uint64_t i) { return fmt("%s backend, large request %lu", BK[i % NB].name, (unsigned long)(i / NB)); }, 120});

// ---------------------------------------------------------------- C07
struct Out { int rc; Bytes a, b; bool untouched; bool hybrid; };
enum { R_KP, R_CSIGN, R_FSIGN, R_DKP, R_SKP, R_SSIG, R_SSIGN, R_EDKP, R_BOXKP, R_N };
const char *RN[] = {"hybrid key generation", "compact sign", "full sign", "Dilithium key generation", "SPHINCS+ key generation", "SPHINCS+ signature", "SPHINCS+ sign", "Ed25519 key generation", "box key generation"};
const size_t NEED[] = {160, 40, 32, 32, 96, 32, 32, 32, 32};
Bytes fmsg(int v) { return mc::prf(fmt("fm%d", v), 1 + v * 21 % 64); }
struct SizeBox2 { mc::GBuf g; SizeBox2() : g(sizeof(size_t)) { size_t v = (size_t)LENMAGIC; memcpy(g.p, &v, sizeof v); } size_t get() const { size_t v; memcpy(&v, g.p, sizeof v); return v; } size_t *ptr() { return (size_t *)g.p; } };
Out rop(int op, int variant) {
    const RefKey &rk = rkey(variant % 2); Bytes msg = fmsg(variant); Out o; o.hybrid = op <= R_FSIGN; o.untouched = true;
    auto two = [&](size_t np, size_t ns, int (*f)(uint8_t *, uint8_t *)) { mc::GBuf p(np), s(ns); Call c; o.rc = f(p.p, s.p); c.done(RN[op]); p.check("public key"); s.check("secret key"); o.a = p.bytes(); o.b = s.bytes(); o.untouched = p.all(0xA5) && s.all(0xA5); };
    auto sgn = [&](size_t n, int (*f)(uint8_t *, size_t *, const uint8_t *, size_t, const uint8_t *), const Bytes &key) { mc::GBuf s(n), m(msg), k(key); m.readonly(); k.readonly(); SizeBox2 L; Call c; o.rc = f(s.p, L.ptr(), m.p, msg.size(), k.p); c.done(RN[op]); s.check("signature"); o.a = s.bytes(); if (!o.rc && L.get() != n) mc::fail("%s reported %zu bytes, expected %zu", RN[op], L.get(), n); };
    switch (op) {
    case R_KP: two(PK, SK, [](uint8_t *p, uint8_t *s) { return crypto_sign_dilithium_ed25519_sphincs_keypair(p, s); }); break;
    case R_CSIGN: case R_FSIGN: { SignRes r = sign(op == R_CSIGN ? COMPACT : FULL, msg, rk.k.sk); o.rc = r.rc; o.a = r.sm; break; } // sign() itself checks untouched outputs
    case R_DKP: two(1312, 2560, [](uint8_t *p, uint8_t *s) { return DIL(crypto_sign_keypair)(p, s); }); break;
    case R_SKP: two(64, 128, [](uint8_t *p, uint8_t *s) { return SPH(crypto_sign_keypair)(p, s); }); break;
    case R_SSIG: sgn(49856, SPH(crypto_sign_signature), rk.sph_sk); break;
    case R_SSIGN: sgn(49856 + msg.size(), SPH(crypto_sign), rk.sph_sk); break;
    case R_EDKP: two(32, 64, [](uint8_t *p, uint8_t *s) { return crypto_sign_keypair(p, s); }); break;
    case R_BOXKP: two(32, 32, [](uint8_t *p, uint8_t *s) { return crypto_box_keypair(p, s); }); break;
    }
    mc::state(mc::mix(mc::hash(o.a, mc::hash(o.b)), op * 7 + o.rc)); return o;
}
// what a successful call must have produced from the given fresh bytes
void check_fresh(int op, int variant, const Out &o, const Bytes &r, const char *ctx) {
    const RefKey &rk = rkey(variant % 2); Bytes msg = fmsg(variant);
    switch (op) {
    case R_KP: { Bytes p1, s1, p2, s2; ref::ed::keygen(sub(r, 0, 32), p1, s1); ref::dil::keygen(sub(r, 32, 32), p2, s2); if (sub(o.a, 0, 32) != p1 || sub(o.a, 32, 1312) != p2 || sub(o.a, 1344, 32) != sub(r, 128, 32) || sub(o.b, 0, 64) != s1 || sub(o.b, 64, 2560) != s2 || sub(o.b, 2624, 1312) != p2 || sub(o.b, 3936, 96) != sub(r, 64, 96) || sub(o.b, 4032, 32) != sub(o.a, 1376, 32)) mc::fail("%s: the keys are not those of the 160 operating-system bytes obtained during the call", ctx); break; }
    case R_CSIGN: if (o.a != ref_compact(rk, msg, r)) mc::fail("%s: not the signature made with the 40 operating-system bytes of this call as nonce (nonce carried: %s, obtained: %s)", ctx, hex(sub(o.a, 2486, 40)).c_str(), hex(r).c_str()); break;
    case R_FSIGN: { Bytes s = sub(o.a, 66 + msg.size() + 2420, 49856); if (sub(s, 0, 32) != ref::sph::msg_R(rk.sph_sk, r, msg) || !ref::sph::verify(s, msg, rk.sph_pk)) mc::fail("%s: SPHINCS+ part not made with the operating-system bytes of this call", ctx); break; }
    case R_DKP: { Bytes p, s; ref::dil::keygen(r, p, s); if (p != o.a || s != o.b) mc::fail("%s: key not made from the operating-system bytes of this call", ctx); break; }
    case R_SKP: if (sub(o.b, 0, 96) != r || sub(o.a, 0, 32) != sub(r, 64, 32) || sub(o.b, 64, 64) != o.a) mc::fail("%s: key not made from the operating-system bytes of this call", ctx); break;
    case R_SSIG: case R_SSIGN: { Bytes s = sub(o.a, 0, 49856); if (sub(s, 0, 32) != ref::sph::msg_R(rk.sph_sk, r, msg) || !ref::sph::verify(s, msg, rk.sph_pk)) mc::fail("%s: signature not made with the operating-system bytes of this call", ctx); break; }
    case R_EDKP: { Bytes p, s; ref::ed::keygen(r, p, s); if (p != o.a || s != o.b) mc::fail("%s: key not made from the operating-system bytes of this call", ctx); break; }
    case R_BOXKP: { if (o.b != r) mc::fail("%s: secret key is not the operating-system bytes of this call", ctx); Bytes base(32, 0); base[0] = 9; if (o.a != ref::x25519(r, base)) mc::fail("%s: public key does not belong to the secret key", ctx); break; }
    }
}
struct Plan { int op; int kind; long at; int err; bool forever; size_t chunk; }; std::vector<Plan> plans;
const int ERR[] = {EIO, ENOSYS, EFAULT, EINVAL, EPERM};
uint64_t setup_fail(int t) {
    plans.clear(); rkey(0); rkey(1);
    for (int op = 0; op < R_N; op++) {
        bool slow = op == R_FSIGN || op == R_SSIG || op == R_SSIGN; // only successful calls are slow
        for (int e = 0; e < 5; e++) for (int fo = 0; fo < 2; fo++) plans.push_back({op, 0, 0, ERR[e], fo != 0, 0});            // first request fails
        for (size_t off = 0; off < NEED[op]; off++) for (int fo = 0; fo < 2; fo++) { plans.push_back({op, 1, (long)off, EIO, fo != 0, 0}); }  // every byte offset, source then fails
        for (size_t ch : {1, 7, 16}) for (size_t k = 0; k < (NEED[op] + ch - 1) / ch; k++) for (int fo = 0; fo < 2; fo++) plans.push_back({op, 0, (long)k, EIO, fo != 0, ch}); // every request index under chunked delivery
        for (int m = 0; m < (slow && !t ? 4 : 32); m++) plans.push_back({op, 2, m, 0, false, 0});                                // interruption patterns: must succeed
        for (size_t ch : {1, 3, 8, 13, 31, 33}) if (!slow || t || ch == 13) plans.push_back({op, 3, 0, 0, false, ch});            // short deliveries: must succeed
    }
    return plans.size();
}
std::string plan_text(const Plan &p) { return fmt("%s; %s", RN[p.op], p.kind == 0 ? fmt("request %ld fails with errno %d %s, at most %zu bytes per request", p.at, p.err, p.forever ? "and keeps failing" : "once", p.chunk).c_str() : p.kind == 1 ? fmt("source fails after %ld bytes", p.at).c_str() : p.kind == 2 ? fmt("interruption pattern %lx", p.at).c_str() : fmt("%zu bytes per request", p.chunk).c_str()); }
mc::Reg f1({"f_rngfail", "nine randomised entry points x every request index and byte offset at which the random source can fail x 5 error codes x transient/persistent x chunkings; interruption and short-delivery patterns that must succeed",
    setup_fail,
    [](uint64_t i) { const Plan &p = plans[i]; env::reset("rng"); if (p.kind == 0) { env::rng.fail_call = p.at; env::rng.fail_errno = p.err; env::rng.fail_forever = p.forever; env::rng.max_chunk = p.chunk; } else if (p.kind == 1) { env::rng.fail_after = p.at; env::rng.fail_forever = p.forever; } else if (p.kind == 2) { env::rng.eintr_mask = p.at; env::rng.max_chunk = p.at & 16 ? 24 : 0; } else env::rng.max_chunk = p.chunk;
        int v = (int)(i % 5); Out o = rop(p.op, v); std::string ctx = plan_text(p);
        if (p.kind <= 1) { if (!env::rng.failures) mc::fail("%s: the call never reached the failing request (it asked for %lu bytes in %lu requests)", ctx.c_str(), (unsigned long)env::rng.pos, (unsigned long)env::rng.calls); if (o.rc == 0) mc::fail("%s: success reported although the random source failed", ctx.c_str()); if (o.hybrid && !o.untouched) mc::fail("%s: failed but wrote to the caller's key buffers", ctx.c_str()); mc::outcome("randomness failure reported"); }
        else { if (o.rc) mc::fail("%s: failed with %d although no request failed", ctx.c_str(), o.rc); if (env::rng.pos != NEED[p.op]) mc::fail("%s: used %lu random bytes instead of %zu", ctx.c_str(), (unsigned long)env::rng.pos, NEED[p.op]); check_fresh(p.op, v, o, env::expect("rng", 0, NEED[p.op]), ctx.c_str()); mc::outcome("succeeded with fresh bytes"); }
        mc::trace(); },
    [](uint64_t i) { return plan_text(plans[i]); }});
// histories of randomised calls, some failing: each success is a function of the bytes obtained in that very call
const int FAST[] = {R_KP, R_CSIGN, R_DKP, R_EDKP, R_BOXKP, R_SKP};
struct Step { int op; int fail; }; std::vector<std::vector<Step>> hist; std::vector<int> reps;
uint64_t setup_fresh(int t) {
    hist.clear(); reps.clear(); rkey(0); rkey(1);
    for (int a = 0; a < R_N; a++) for (int fa = 0; fa < 2; fa++) for (int b = 0; b < R_N; b++) { hist.push_back({{a, fa}, {b, 0}}); }
    for (int a : FAST) for (int fa = 0; fa < 2; fa++) for (int b : FAST) for (int fb = 0; fb < 2; fb++) for (int c : FAST) { if (!t && (a == R_SKP || b == R_SKP || c == R_SKP)) continue; hist.push_back({{a, fa}, {b, fb}, {c, 0}}); }
    if (t) for (int a : FAST) for (int b : FAST) for (int c : FAST) for (int d : FAST) hist.push_back({{a, 0}, {b, 0}, {c, 0}, {d, 0}});
    for (int op = 0; op < R_N; op++) { bool slow = op == R_FSIGN || op == R_SSIG || op == R_SSIGN; reps.push_back(slow ? (t ? 40 : 6) : op == R_CSIGN ? (t ? 4200 : 600) : op == R_EDKP || op == R_BOXKP || op == R_DKP ? (t ? 4200 : 1100) : (t ? 600 : 80)); }
    return hist.size() + reps.size();
}
mc::Reg f2({"f_fresh", "all histories of 2 randomised calls (nine entry points, earlier ones optionally hit by a randomness failure), all of 3 over the fast ones, and long repetitions of each: every output is recomputed from the bytes the operating system delivered during that call",
    setup_fresh,
    [](uint64_t i) { env::reset("fr" + std::to_string(i)); std::string tape = env::rng.tape; uint64_t nr = reps.size();
        auto step = [&](Step s, int v, const std::string &ctx) { uint64_t p0 = env::rng.pos; env::rng.failures = 0; if (s.fail) { env::rng.fail_after = p0 + NEED[s.op] / 2; } else env::rng.fail_after = -1; Out o = rop(s.op, v);
            if (s.fail) { if (!o.rc) mc::fail("%s: success although the random source failed half way", ctx.c_str()); }
            else { if (o.rc) mc::fail("%s: failed with %d", ctx.c_str(), o.rc); if (env::rng.pos - p0 != NEED[s.op]) mc::fail("%s: obtained %lu operating-system bytes during the call, needs %zu", ctx.c_str(), (unsigned long)(env::rng.pos - p0), NEED[s.op]); check_fresh(s.op, v, o, env::expect(tape, p0, NEED[s.op]), ctx.c_str()); } };
        if (i < nr) { for (int k = 0; k < reps[i]; k++) step({(int)i, 0}, k % 3, fmt("call %d of %s in a row", k + 1, RN[i])); mc::outcome("long repetition"); }
        else { auto &h = hist[i - nr]; std::string c; for (size_t k = 0; k < h.size(); k++) { c += std::string(k ? ", then " : "") + RN[h[k].op] + (h[k].fail ? " (randomness fails)" : ""); step(h[k], (int)(i + k) % 4, c); } mc::outcome("history"); }
        mc::trace(); },
    [](uint64_t i) { if (i < reps.size()) return fmt("%s, %d times", RN[i], reps[i]); std::string c; for (auto &s : hist[i - reps.size()]) c += std::string(c.empty() ? "" : ", then ") + RN[s.op] + (s.fail ? " (randomness fails)" : ""); return c; }, 300});
}

// ---------------------------------------------------------------- C18
#include <malloc.h>
extern "C" {
uint8_t *mem_alloc(size_t); uint64_t *mem_alloc_long_long(size_t); void mem_free(void *, size_t);
int dp_sign_keypair_seed(unsigned char *, unsigned char *, unsigned char *); int dp_sign_keypair(unsigned char *, unsigned char *);
int dp_sign(unsigned char *, size_t *, const unsigned char *, size_t, const unsigned char *); int dp_sign_verify(unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *);
int dp_sign_seedexpander(const unsigned char *, unsigned char *); int dp_randombytes(void *, size_t); int dp_seedexpander_wrapper(const uint8_t *, size_t, uint8_t *, size_t);
}
namespace {
mc::Reg w1({"w_memory", "facade memory: every allocation size 0..N for both allocators, filled with non-zero bytes, released with every size relation; content inspected at the moment the block is handed back",
    [](int t) -> uint64_t { return t ? 20000 : 4200; },
    [](uint64_t i) { size_t n = i < 4100 ? i : 4100 + (i - 4100) * 37;
        for (int k = 0; k < 2 && n; k++) { env::oom_at = 0; env::oom_seen = 0; env::faulty = true; void *p = k ? (void *)mem_alloc_long_long(n) : (void *)mem_alloc(n); env::faulty = false; env::oom_at = -1; mc::transition(); if (p && env::oom_seen == 1) mc::fail("allocation of %zu bytes returns a block although there is no memory", n); mc::outcome("no memory"); }
        for (int k = 0; k < 2; k++) for (int part = 0; part < 3; part++) {
            env::heap_track(true); uint8_t *p = k ? (uint8_t *)mem_alloc_long_long(n) : mem_alloc(n);
            if (n && !p) { env::heap_track(false); mc::fail("allocation of %zu bytes failed", n); }
            if (!p) { env::heap_track(false); continue; }
            if (env::heap_live() != 1) { env::heap_track(false); mc::fail("allocation of %zu bytes holds %ld blocks", n, env::heap_live()); }
            if (malloc_usable_size(p) < n) { env::heap_track(false); mc::fail("allocation of %zu bytes yields only %zu", n, malloc_usable_size(p)); }
            for (size_t j = 0; j < n; j++) p[j] = (uint8_t)(1 + (j * 7 + i) % 255);
            size_t sz = part == 0 ? n : part == 1 ? n / 2 : (n ? n - 1 : 0);
            env::watch = p; env::watch_n = sz; env::watch_dirty = 0; env::watch_seen = false; mem_free(p, sz); long live = env::heap_live(); env::heap_track(false); env::watch = nullptr; mc::transition(2); mc::state(mc::mix(n, k * 3 + part));
            if (!env::watch_seen || live) mc::fail("mem_free of a %zu-byte block did not hand it back", n);
            if (env::watch_dirty) mc::fail("mem_free(block, %zu) handed the block back with %zu of those bytes not erased", sz, env::watch_dirty); }
        mc::trace(); },
    [](uint64_t i) { return fmt("allocate and release %lu bytes", (unsigned long)i); }});
// one argument tuple for facade and core; the two must be indistinguishable
struct Obs { int rc; Bytes out; uint64_t pos; long live; };
template <class F> Obs obs(std::vector<mc::GBuf *> outs, F f) { for (auto *g : outs) memset(g->p, 0xA5, g->n); env::reset("facade"); env::heap_track(true); Obs o; o.rc = f(); o.live = env::heap_live(); env::heap_track(false); mc::transition(); for (auto *g : outs) { g->check("output"); Bytes b = g->bytes(); o.out.insert(o.out.end(), b.begin(), b.end()); } o.pos = env::rng.pos; return o; }
void same(const Obs &a, const Obs &b, const char *what) { if (a.rc != b.rc) mc::fail("%s: facade returned %d, core operation %d", what, a.rc, b.rc); if (a.out != b.out) mc::fail("%s: facade and core operation left different outputs", what); if (a.pos != b.pos) mc::fail("%s: facade used %lu random bytes, core %lu", what, (unsigned long)a.pos, (unsigned long)b.pos); if (a.live) mc::fail("%s: facade left %ld heap blocks", what, a.live); mc::state(mc::hash(a.out, a.rc)); mc::outcome(a.rc ? "both refused" : "both succeeded"); }
Bytes w_sm, w_msg;
mc::Reg w2({"w_facade", "every facade function against the core operation it stands for, on the same arguments and random bytes: all pointer subsets, all message lengths 0..70, all signed lengths around the right one, tampered bytes, wrap-around lengths, seeds and expansion lengths",
    [](int t) -> uint64_t { rkey(0); w_msg = mc::prf("wm", 32); w_sm = ref_compact(rkey(0), w_msg, mc::prf("wn", 40)); return 16 + 8 + 32 + 71 * 2 + 200 + 260 + 32 + 12 + 64 + 300 + (t ? 2558 * 2 : 300) + 1; },
    [](uint64_t i) { const Key &k = key(0); mc::GBuf pk(k.pk), sk(k.sk), m(w_msg), sm(w_sm), o(2526 + 70), opk(PK), osk(SK), oex(160), seed(mc::prf("wseed", 160)); pk.readonly(); sk.readonly(); m.readonly(); sm.readonly(); seed.readonly(); mc::GBuf L(8);
        auto P = [](int mask, int b, uint8_t *p) -> uint8_t * { return mask >> b & 1 ? nullptr : p; }; uint64_t c = i;
        auto SIGN = [&](int mask, const uint8_t *mm, size_t ml, const uint8_t *kk, const char *w) { same(obs({&o, &L}, [&] { return dp_sign(P(mask, 0, o.p), (size_t *)P(mask, 1, L.p), mask >> 2 & 1 ? nullptr : mm, ml, mask >> 3 & 1 ? nullptr : kk); }), obs({&o, &L}, [&] { return crypto_sign_compact_dilithium_ed25519_sphincs(P(mask, 0, o.p), (unsigned long long *)P(mask, 1, L.p), mask >> 2 & 1 ? nullptr : mm, ml, mask >> 3 & 1 ? nullptr : kk); }), w); };
        auto VER = [&](const uint8_t *mm, size_t ml, const uint8_t *ss, size_t sl, const uint8_t *pp, const std::string &w) { same(obs({}, [&] { return dp_sign_verify((unsigned char *)mm, ml, ss, sl, pp); }), obs({}, [&] { return crypto_verify_compact_dilithium_ed25519_sphincs(mm, ml, ss, sl, pp); }), w.c_str()); };
        if (c < 16) { SIGN((int)c, m.p, 32, sk.p, fmt("sign with pointer mask %lu", (unsigned long)c).c_str()); mc::trace(); return; } c -= 16;
        if (c < 8) { VER(c & 1 ? nullptr : m.p, 32, c & 2 ? nullptr : sm.p, sm.n, c & 4 ? nullptr : pk.p, fmt("verify with pointer mask %lu", (unsigned long)c)); mc::trace(); return; } c -= 8;
        if (c < 32) { int f = c / 8, q = c % 8; if (f == 0) same(obs({&opk, &osk}, [&] { return dp_sign_keypair_seed(P(q, 0, opk.p), P(q, 1, osk.p), P(q, 2, seed.p)); }), obs({&opk, &osk}, [&] { return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(P(q, 0, opk.p), P(q, 1, osk.p), P(q, 2, seed.p)); }), "seeded key generation"); else if (f == 1) same(obs({&opk, &osk}, [&] { return dp_sign_keypair(P(q, 0, opk.p), P(q, 1, osk.p)); }), obs({&opk, &osk}, [&] { return crypto_sign_dilithium_ed25519_sphincs_keypair(P(q, 0, opk.p), P(q, 1, osk.p)); }), "key generation"); else if (f == 2) same(obs({&oex}, [&] { return dp_sign_seedexpander(P(q, 0, seed.p), P(q, 1, oex.p)); }), obs({&oex}, [&] { return crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(P(q, 0, seed.p), P(q, 1, oex.p)); }), "seed expansion"); else same(obs({&o}, [&] { return dp_seedexpander_wrapper(P(q, 0, seed.p), 40, P(q, 1, o.p), 300); }), obs({&o}, [&] { return seedexpander_wrapper(P(q, 0, seed.p), 40, P(q, 1, o.p), 300); }), "SHAKE expansion"); mc::trace(); return; } c -= 32;
        if (c < 142) { size_t n = c / 2; mc::GBuf mm(mc::prf("wml", n)); mm.readonly(); if (c & 1) SIGN(0, mm.p, n, sk.p, fmt("sign %zu bytes", n).c_str()); else { Bytes msg = mc::prf("wml", n); if (n >= 1 && n <= 64) { mc::GBuf s2(ref_compact(rkey(0), msg, mc::prf("wq", 40))); s2.readonly(); VER(mm.p, n, s2.p, s2.n, pk.p, fmt("verify a valid %zu-byte message", n)); Obs x = obs({}, [&] { return dp_sign_verify(mm.p, n, s2.p, s2.n, pk.p); }); if (x.rc) mc::fail("facade verify rejects a valid signature of %zu bytes", n); } else VER(mm.p, n, sm.p, sm.n, pk.p, fmt("verify with message length %zu", n)); } mc::trace(); return; } c -= 142;
        if (c < 200) { size_t n = 2558 - 100 + c; Bytes s = w_sm; s.resize(n, 0); mc::GBuf g(s); g.readonly(); VER(m.p, 32, g.p, n, pk.p, fmt("verify with signed length %zu", n)); mc::trace(); return; } c -= 200;
        if (c < 260) { Bytes s = w_sm; if (c < 256) s[1] = (uint8_t)c; else s[0] = (uint8_t)(c - 256); mc::GBuf g(s); g.readonly(); VER(m.p, 32, g.p, s.size(), pk.p, fmt("verify with header edit %lu", (unsigned long)c)); mc::trace(); return; } c -= 260;
        if (c < 32) { Bytes mm = w_msg; mm[c] ^= 1 << (c % 8); mc::GBuf g(mm); g.readonly(); VER(g.p, 32, sm.p, sm.n, pk.p, fmt("verify with message byte %lu changed", (unsigned long)c)); mc::trace(); return; } c -= 32;
        if (c < 12) { const size_t V[] = {(size_t)-1, (size_t)-2, (size_t)1 << 32, ((size_t)1 << 32) + 32, ((size_t)1 << 32) + 2558, (size_t)1 << 63}; size_t v = V[c % 6]; if (c < 6) VER(m.p, v, sm.p, sm.n, pk.p, fmt("verify with message length %zu", v)); else { VER(m.p, 32, sm.p, v, pk.p, fmt("verify with signed length %zu", v)); SIGN(0, m.p, v, sk.p, fmt("sign with message length %zu", v).c_str()); } mc::trace(); return; } c -= 12;
        if (c < 64) { mc::GBuf b((size_t)c * 3); same(obs({&b}, [&] { env::rng.max_chunk = c % 5; if (c % 7 == 3) env::rng.fail_call = 0; return dp_randombytes(b.p, b.n); }), obs({&b}, [&] { env::rng.max_chunk = c % 5; if (c % 7 == 3) env::rng.fail_call = 0; return randombytes(b.p, b.n); }), fmt("%zu random bytes", b.n).c_str()); mc::trace(); return; } c -= 64;
        if (c < 300) { size_t sl = c % 75, ol = (c * 13) % 900; mc::GBuf s(mc::prf("wx", sl)), b(ol); s.readonly(); same(obs({&b}, [&] { return dp_seedexpander_wrapper(s.p, sl, b.p, ol); }), obs({&b}, [&] { return seedexpander_wrapper(s.p, sl, b.p, ol); }), fmt("SHAKE expansion %zu -> %zu", sl, ol).c_str()); mc::trace(); return; } c -= 300;
        uint64_t nt = mc::tier ? 2558 * 2 : 300; if (c < nt) { size_t p = mc::tier ? c / 2 : (c < 70 ? c : c < 270 ? 70 + (c - 70) * 12 + c % 12 : 2486 + (c - 270) * 2); Bytes s = w_sm; s[p % s.size()] ^= 1 << ((c * 3) % 8); mc::GBuf g(s); g.readonly(); VER(m.p, 32, g.p, s.size(), pk.p, fmt("verify with signed byte %zu changed", p)); Obs x = obs({}, [&] { return dp_sign_verify(m.p, 32, g.p, s.size(), pk.p); }); if (!x.rc) mc::fail("facade verify accepts a signature with byte %zu changed", p); mc::trace(); return; }
        env::reset("wr"); SignRes r = sign(COMPACT, w_msg, k.sk); if (r.rc || dp_sign_verify((unsigned char *)w_msg.data(), 32, r.sm.data(), r.sm.size(), k.pk.data())) mc::fail("facade verify rejects a core signature"); mc::trace(); },
    [](uint64_t i) { return fmt("facade argument tuple %lu", (unsigned long)i); }});
// histories of facade calls
struct WOp { const char *name; std::function<Bytes(bool)> run; }; std::vector<WOp> wo; std::vector<Bytes> wbase;
Bytes wres(int rc, std::initializer_list<const Bytes *> o) { Bytes r(4); memcpy(&r[0], &rc, 4); for (auto *b : o) r.insert(r.end(), b->begin(), b->end()); return r; }
void whist_setup() {
    if (!wo.empty()) return; rkey(0); static Bytes m = mc::prf("wm", 32), sm = ref_compact(rkey(0), m, mc::prf("wn", 40)), pk = key(0).pk, sk = key(0).sk;
    auto sg = [](const char *n, Bytes msg, long fail) { wo.push_back({n, [=](bool f) { Bytes o(2558 + 64, 0xA5); size_t L = 77; env::reset("wh"); if (fail >= 0) env::rng.fail_after = fail; int rc = f ? dp_sign(o.data(), &L, msg.data(), msg.size(), sk.data()) : crypto_sign_compact_dilithium_ed25519_sphincs(o.data(), (unsigned long long *)&L, msg.data(), msg.size(), sk.data()); Bytes l(8); memcpy(&l[0], &L, 8); return wres(rc, {&o, &l}); }}); };
    auto vf = [](const char *n, Bytes msg, Bytes s) { wo.push_back({n, [=](bool f) { int rc = f ? dp_sign_verify((uint8_t *)msg.data(), msg.size(), s.data(), s.size(), pk.data()) : crypto_verify_compact_dilithium_ed25519_sphincs((uint8_t *)msg.data(), msg.size(), s.data(), s.size(), pk.data()); return wres(rc, {}); }}); };
    auto ks = [](const char *n, Bytes seed) { wo.push_back({n, [=](bool f) { Bytes a(PK, 0xA5), b(SK, 0xA5); int rc = f ? dp_sign_keypair_seed(a.data(), b.data(), (uint8_t *)seed.data()) : crypto_sign_dilithium_ed25519_sphincs_keypair_seed(a.data(), b.data(), (uint8_t *)seed.data()); return wres(rc, {&a, &b}); }}); };
    auto kr = [](const char *n, long fail) { wo.push_back({n, [=](bool f) { Bytes a(PK, 0xA5), b(SK, 0xA5); env::reset("whk"); if (fail >= 0) env::rng.fail_after = fail; int rc = f ? dp_sign_keypair(a.data(), b.data()) : crypto_sign_dilithium_ed25519_sphincs_keypair(a.data(), b.data()); return wres(rc, {&a, &b}); }}); };
    auto rb = [](const char *n, size_t len, long fail) { wo.push_back({n, [=](bool f) { Bytes a(len, 0xA5); env::reset("whr"); if (fail >= 0) env::rng.fail_after = fail; int rc = f ? dp_randombytes(a.data(), len) : randombytes(a.data(), len); return rc ? wres(rc, {}) : wres(rc, {&a}); }}); };
    auto xp = [](const char *n, Bytes seed) { wo.push_back({n, [=](bool f) { Bytes a(160, 0xA5); int rc = f ? dp_sign_seedexpander(seed.data(), a.data()) : crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(seed.data(), a.data()); return wres(rc, {&a}); }}); };
    auto xw = [](const char *n, size_t sl, size_t ol) { wo.push_back({n, [=](bool f) { Bytes s = mc::prf("whx", 64), a(ol, 0xA5); int rc = f ? dp_seedexpander_wrapper(s.data(), sl, a.data(), ol) : seedexpander_wrapper(s.data(), sl, a.data(), ol); return wres(rc, {&a}); }}); };
    Bytes m2 = m, sm2 = sm; m2[31] ^= 1; sm2[2000] ^= 1; sg("sign", m, -1); sg("sign another message", mc::prf("wm2", 64), -1); sg("sign, randomness fails", m, 7); sg("sign 65 bytes", mc::prf("w65", 65), -1); vf("verify", m, sm); vf("verify another message", m2, sm); vf("verify an altered signature", m, sm2); ks("key pair of seed A", mc::prf("wsA", 160)); Bytes sB = mc::prf("wsA", 160); sB[159] ^= 1; ks("key pair of seed B", sB); kr("random key pair", -1); kr("random key pair, randomness fails", 50); rb("100 random bytes", 100, -1); rb("random bytes, source fails", 100, 10); rb("32 random bytes", 32, -1); xp("expand seed A", mc::prf("whA", 96)); xp("expand seed B", mc::prf("whB", 96)); xw("expand 64 to 200", 64, 200); xw("expand 32 to 40", 32, 40);
    wo.push_back({"allocate, fill and release blocks", [](bool f) { std::vector<std::pair<uint8_t *, size_t>> b; for (size_t n : {40, 8, 2526, 160}) { uint8_t *p = !f ? (uint8_t *)malloc(n) : n == 8 ? (uint8_t *)mem_alloc_long_long(n) : mem_alloc(n); memset(p, (int)n, n); b.push_back({p, n}); } Bytes ok(1, 1); for (auto &x : b) for (size_t k = 0; k < x.second; k++) if (x.first[k] != (uint8_t)x.second) ok[0] = 0; for (auto &x : b) if (f) mem_free(x.first, x.second); else free(x.first); return ok; }});
    for (auto &w : wo) wbase.push_back(w.run(false));
}
mc::Reg w3({"w_history", "histories of facade calls: all ordered pairs, and all ordered triples of calls (every facade function with succeeding and failing arguments), each history in a process of its own, every step against the core operation",
    [](int) -> uint64_t { whist_setup(); return wo.size() * wo.size(); },
    [](uint64_t i) { size_t n = wo.size(), a = i / n, b = i % n; for (size_t c = 0; c < n; c++) { bool slow = false; for (size_t q : {a, b, c}) if (strstr(wo[q].name, "key pair")) slow = true; if (slow && c && !mc::tier && c != a) continue;
            fflush(stdout); pid_t p = fork(); if (!p) { alarm(100); size_t h[3] = {a, b, c}; for (int k = 0; k < 3; k++) if (wo[h[k]].run(true) != wbase[h[k]]) _exit(10 + k); _exit(0); } int st; waitpid(p, &st, 0); mc::transition(3); mc::state(mc::mix(i, c)); if (WIFSIGNALED(st)) mc::fail("history [%s; %s; %s] of facade calls crashes", wo[a].name, wo[b].name, wo[c].name); if (WEXITSTATUS(st)) mc::fail("history [%s; %s; %s] of facade calls: call %d differs from the core operation", wo[a].name, wo[b].name, wo[c].name, WEXITSTATUS(st) - 9); }
        mc::trace(); },
    [](uint64_t i) { return fmt("facade history %s; %s; then each", wo[i / wo.size()].name, wo[i % wo.size()].name); }, 300});
}
