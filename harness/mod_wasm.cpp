// C23: the product compiled for 32-bit WebAssembly and run in node, against the native build, call by call.
#include "gen.hpp"
#include <climits>
#include <functional>
#include <unistd.h>
#define STR_(x) #x
#define XSTR(x) STR_(x)
#define DIL(x) PQCLEAN_DILITHIUM2_CLEAN_##x
#define SPH(x) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##x
using namespace im; using namespace gen; using mc::fmt;
extern "C" {
uint8_t *mem_alloc(size_t); uint64_t *mem_alloc_long_long(size_t); void mem_free(void *, size_t);
int dp_sign_keypair_seed(unsigned char *, unsigned char *, unsigned char *); int dp_sign_keypair(unsigned char *, unsigned char *);
int dp_sign(unsigned char *, size_t *, const unsigned char *, size_t, const unsigned char *); int dp_sign_verify(unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *);
int dp_sign_seedexpander(const unsigned char *, unsigned char *); int dp_randombytes(void *, size_t); int dp_seedexpander_wrapper(const uint8_t *, size_t, uint8_t *, size_t);
}
extern "C" {
#include "shim/wasm32/glue.c"
}
namespace {
struct A { char k; uint64_t v; Bytes b; int shift; };                    // i: 32-bit, l: 64-bit, n: null, b: buffer, z: a size_t to be written (8 bytes here, 4 there)
A I(uint64_t v) { return {'i', v, {}, 0}; } A L(uint64_t v) { return {'l', v, {}, 0}; } A N() { return {'n', 0, {}, 0}; } A B(const Bytes &b, int s = 0) { return {'b', 0, b, s}; } A O(size_t n, int s = 0) { return {'b', 0, Bytes(n, 0xA5), s}; } A Z() { return {'z', 0, Bytes(8, 0), 0}; }
struct R { bool ok = false, missing = false; int rc = 0; std::string err; long live = 0, used = 0, dirty = -1, exited = -1, seen = 0; std::vector<Bytes> out; };
FILE *win, *wout; pid_t owner;
bool start() {
    if (owner == getpid()) return win != nullptr; owner = getpid(); win = wout = nullptr; char self[PATH_MAX]; ssize_t k = readlink("/proc/self/exe", self, sizeof self - 8); if (k < 0) return false; self[k] = 0; std::string wasm = std::string(self) + ".wasm"; if (access(wasm.c_str(), R_OK)) return false;
    std::string js = std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/')) + "/shim/wasm32/run.js"; int a[2], b[2]; if (pipe(a) || pipe(b)) return false; pid_t p = fork(); if (p < 0) return false;
    if (!p) { dup2(a[0], 0); dup2(b[1], 1); for (int f = 3; f < 256; f++) ::close(f); execlp("node", "node", js.c_str(), wasm.c_str(), (char *)nullptr); _exit(127); }
    ::close(a[0]); ::close(b[1]); win = fdopen(a[1], "w"); wout = fdopen(b[0], "r"); return true;
}
long num(const char *s, const char *k) { const char *p = strstr(s, k); return p ? strtol(p + strlen(k), nullptr, 10) : 0; }
R call(const char *f, const std::vector<A> &args, const Bytes &tape = {}, int world = 0, long oom = -1) {
    R r; if (!start()) return r; std::string h = fmt("{\"f\":\"%s\",\"t\":%zu,\"w\":%d,\"o\":%ld,\"a\":[", f, tape.size(), world, oom); bool first = true; size_t nb = 0;
    for (auto &a : args) { if (!first) h += ","; first = false; if (a.k == 'i') h += fmt("[\"i\",%u]", (unsigned)a.v); else if (a.k == 'n') h += "[\"i\",0]"; else if (a.k == 'l') h += fmt("[\"l\",\"%llu\"]", (unsigned long long)a.v); else { h += fmt("[\"b\",%zu,%d]", a.k == 'z' ? (size_t)4 : a.b.size(), a.shift); nb++; } }
    h += "]}\n"; fwrite(h.data(), 1, h.size(), win); fwrite(tape.data(), 1, tape.size(), win); for (auto &a : args) if (a.k == 'b') fwrite(a.b.data(), 1, a.b.size(), win); else if (a.k == 'z') fwrite(a.b.data(), 1, 4, win); fflush(win);
    static char line[1 << 14]; if (!fgets(line, sizeof line, wout)) { win = nullptr; return r; } r.ok = true; r.rc = (int)num(line, "\"rc\":"); r.live = num(line, "\"live\":"); r.used = num(line, "\"used\":"); r.dirty = num(line, "\"dirty\":"); r.missing = num(line, "\"missing\":"); r.exited = num(line, "\"exited\":"); r.seen = num(line, "\"seen\":"); const char *e = strstr(line, "\"err\":\""); if (e) { e += 7; while (*e && *e != '"') r.err += *e++; }
    for (auto &a : args) if (a.k == 'b' || a.k == 'z') { Bytes b(a.k == 'z' ? 4 : a.b.size()); if (fread(b.data(), 1, b.size(), wout) != b.size()) { r.ok = false; win = nullptr; return r; } r.out.push_back(b); }
    return r;
}
typedef std::function<int(uint8_t **)> Native;
struct Case { std::string what; std::string f; std::function<std::vector<A>()> args; Native nat; long tape = -1; int world = 0; bool loose = false; };
std::vector<Case> cs;
void put(std::string what, const char *f, std::function<std::vector<A>()> args, Native nat, long tape = 100000, int world = 0, bool loose = false) { cs.push_back({what, f, args, nat, tape, world, loose}); }
void compare(const Case &c) {
    std::vector<A> args = c.args(); std::vector<Bytes> own; for (auto &a : args) if (a.k == 'b' || a.k == 'z') own.push_back(a.b); std::vector<uint8_t *> p; size_t j = 0; for (auto &a : args) { if (a.k == 'b' || a.k == 'z') { static uint8_t none; p.push_back(own[j].empty() ? &none : own[j].data()); j++; } else if (a.k == 'n') p.push_back(nullptr); }
    env::reset("w32"); if (c.tape >= 0) env::rng.fail_after = c.tape; int rc = c.nat(p.data()); mc::transition(); R r = call(c.f.c_str(), args, env::expect("w32", 0, c.tape >= 0 ? c.tape : 0), c.world);
    if (!r.ok) { mc::outcome("WebAssembly cannot be run here"); return; } if (r.missing) { mc::outcome("operation not exported"); return; } mc::transition(); const char *w = c.what.c_str();
    if (!r.err.empty()) mc::fail("%s on wasm32: %s", w, r.err.c_str()); if (r.rc != rc) mc::fail("%s: wasm32 returns %d, the native build %d", w, r.rc, rc); if (r.live) mc::fail("%s on wasm32: %ld blocks not released", w, r.live);
    if (!(c.loose && rc)) { j = 0; for (auto &a : args) if (a.k == 'b' || a.k == 'z') { Bytes n = own[j]; if (a.k == 'z') { for (int k = 4; k < 8; k++) if (n[k]) mc::fail("%s: native size out of range", w); n.resize(4); } if (r.out[j] != n) { size_t at = 0; while (r.out[j][at] == n[at]) at++; mc::fail("%s: output %zu of the wasm32 build differs from the native one at byte %zu", w, j, at); } mc::state(mc::hash(n, mc::mix(rc, mc::hash(c.f.data(), c.f.size())))); j++; } }
    if (!rc && (uint64_t)r.used != env::rng.pos) mc::fail("%s: wasm32 uses %ld random bytes, the native build %lu", w, r.used, (unsigned long)env::rng.pos); mc::outcome(rc ? "both refused" : "both succeeded");
}
const unsigned long long HI[] = {1ULL << 32, 2ULL << 32, 1ULL << 63, (1ULL << 33) + (1ULL << 32)};
void facade_cases(int t) {
    static Bytes pk = key(0).pk, sk = key(0).sk; rkey(0);
    // key generation
    for (int s = 0; s < (t ? 300 : 16); s++) { Bytes seed = s % 4 == 0 ? special(s * 7, 160) : s % 4 == 1 ? runs(s * 5, 160, "w32") : mc::prf("w32seed" + std::to_string(s), 160); if (s == 2) seed = Bytes(160, 0xFF); if (s == 3) seed = Bytes(160, 0); put(fmt("key pair of seed %d", s), "dp_sign_keypair_seed", [=] { return std::vector<A>{O(PK, s % 8), O(SK, s % 5), B(seed, s % 3)}; }, [](uint8_t **p) { return dp_sign_keypair_seed(p[0], p[1], p[2]); }); }
    for (int q = 0; q < 8; q++) put(fmt("seeded key pair, pointers missing %d", q), "dp_sign_keypair_seed", [=] { return std::vector<A>{q & 1 ? N() : O(PK), q & 2 ? N() : O(SK), q & 4 ? N() : B(mc::prf("w32s", 160))}; }, [](uint8_t **p) { return dp_sign_keypair_seed(p[0], p[1], p[2]); });
    for (int q = 0; q < 4; q++) for (int w = 0; w < 2; w++) put(fmt("random key pair, pointers missing %d, world %d", q, w), "dp_sign_keypair", [=] { return std::vector<A>{q & 1 ? N() : O(PK), q & 2 ? N() : O(SK)}; }, [](uint8_t **p) { return dp_sign_keypair(p[0], p[1]); }, 160, w);
    for (int k = 0; k < 160; k += t ? 1 : 13) for (int w = 0; w < 2; w++) put(fmt("random key pair with %d random bytes", k), "dp_sign_keypair", [=] { return std::vector<A>{O(PK), O(SK)}; }, [](uint8_t **p) { return dp_sign_keypair(p[0], p[1]); }, k, w);
    // signing: every length, extreme lengths, missing pointers, randomness that fails
    auto sgn = [&](size_t n, uint64_t len, int mask, long tape, int w) { put(fmt("dp_sign of %llu bytes, pointers missing %d, %ld random bytes, world %d", (unsigned long long)len, mask, tape, w), "dp_sign", [=] { return std::vector<A>{mask & 1 ? N() : O(2526 + n, n % 8), mask & 2 ? N() : B(Bytes(8, 0)), mask & 4 ? N() : B(mc::prf("w32m", n), (int)(n % 7)), I(len), mask & 8 ? N() : B(sk, n % 5)}; }, [=](uint8_t **p) { return dp_sign(p[0], (size_t *)p[1], p[2], (size_t)len, p[3]); }, tape, w); };
    for (size_t n = 0; n <= 70; n++) sgn(n, n, 0, 40, n & 1); for (int m = 1; m < 16; m++) sgn(32, 32, m, 40, 0); for (long k = 0; k < 40; k++) sgn(20, 20, 0, k, k & 1);
    for (uint64_t v : {0xFFFFFFFFull, 0xFFFFFFFEull, 0x80000000ull, 0x7FFFFFFFull, 0x10000ull, 0x10020ull, 0x120ull, 0xFFFFF600ull, 0xFFFFF622ull, 0xFFFFF642ull, 0x80000020ull}) sgn(64, v, 0, 40, 0);
    // verification: valid ones of every length, every signed byte changed, every message byte, key bytes, lengths
    auto ver = [&](const std::string &what, std::function<std::vector<A>()> a, uint64_t ml, uint64_t sl) { put(what, "dp_sign_verify", a, [=](uint8_t **p) { return dp_sign_verify(p[0], (size_t)ml, p[1], (size_t)sl, p[2]); }); };
    auto va = [&](const std::string &what, Bytes m, uint64_t ml, Bytes s, uint64_t sl, Bytes k) { ver(what, [=] { return std::vector<A>{B(m, (int)(ml % 5)), I(ml), B(s, (int)(sl % 7)), I(sl), B(k, (int)(ml % 3))}; }, ml, sl); };
    for (size_t n = 1; n <= 64; n++) { Bytes m = mc::prf("w32v", n), s = ref_compact(rkey(0), m, mc::prf("w32n" + std::to_string(n), 40)); va(fmt("dp_sign_verify of a valid %zu-byte message", n), m, n, s, s.size(), pk); }
    static Bytes m = mc::prf("w32v", 32), s = ref_compact(rkey(0), m, mc::prf("w32n32", 40));
    for (size_t b = 0; b < s.size(); b++) va(fmt("dp_sign_verify with signed byte %zu changed", b), m, 32, xorb(s, b, 1 << b % 8), s.size(), pk);
    for (size_t b = 0; b < 32; b++) va(fmt("dp_sign_verify with message byte %zu changed", b), xorb(m, b, 1 << b % 8), 32, s, s.size(), pk); for (size_t b = 0; b < PK; b += t ? 1 : 37) va(fmt("dp_sign_verify with public key byte %zu changed", b), m, 32, s, s.size(), xorb(pk, b, 0x10));
    for (int v = 0; v < 256; v++) { Bytes x = s; x[1] = (uint8_t)v; va(fmt("dp_sign_verify with length byte %d", v), m, 32, x, x.size(), pk); if (v < 8 || v > 250) { x = s; x[0] = (uint8_t)v; va(fmt("dp_sign_verify with mode byte %d", v), m, 32, x, x.size(), pk); } }
    for (size_t n = 0; n <= 70; n++) { Bytes x = m; x.resize(n, 0); va(fmt("dp_sign_verify with message length %zu", n), x, n, s, s.size(), pk); } for (long d = -70; d <= 70; d++) { Bytes x = s; x.resize(s.size() + d, 0); va(fmt("dp_sign_verify with signed length %zu", x.size()), m, 32, x, x.size(), pk); }
    for (uint64_t v : {0xFFFFFFFFull, 0x80000000ull, 0xFFFFF622ull, 0xFFFFF642ull, 0x800009FEull, 0x109FEull}) { va(fmt("dp_sign_verify with signed length %llu", (unsigned long long)v), m, 32, s, v, pk); va(fmt("dp_sign_verify with message length %llu", (unsigned long long)v), m, v, s, s.size(), pk); } 
    for (int q = 1; q < 8; q++) ver(fmt("dp_sign_verify, pointers missing %d", q), [=] { return std::vector<A>{q & 1 ? N() : B(m), I(32), q & 2 ? N() : B(s), I(s.size()), q & 4 ? N() : B(pk)}; }, 32, s.size());
    // expansion, random bytes, memory
    for (int q = 0; q < 12; q++) put(fmt("seed expansion %d", q), "dp_sign_seedexpander", [=] { return std::vector<A>{q == 1 || q == 3 ? N() : B(q < 8 ? mc::prf("w32x" + std::to_string(q), 96) : special(q * 11, 96), q % 4), q == 2 || q == 3 ? N() : O(160)}; }, [](uint8_t **p) { return dp_sign_seedexpander(p[0], p[1]); });
    for (size_t sl = 0; sl <= 80; sl += t ? 1 : 4) for (size_t ol = 0; ol <= 420; ol += t ? 7 : 35) put(fmt("SHAKE expansion %zu to %zu", sl, ol), "dp_seedexpander_wrapper", [=] { return std::vector<A>{B(mc::prf("w32e", sl), (int)(ol % 5)), I(sl), O(ol, sl % 7), I(ol)}; }, [=](uint8_t **p) { return dp_seedexpander_wrapper(p[0], sl, p[1], ol); });
    for (uint64_t v : {0xFFFFFFFFull, 0x80000000ull}) { put("SHAKE expansion with an extreme seed length", "dp_seedexpander_wrapper", [=] { return std::vector<A>{B(mc::prf("w32e", 64)), I(v), O(100), I(100)}; }, [=](uint8_t **p) { return dp_seedexpander_wrapper(p[0], (size_t)v, p[1], 100); }); }
    for (int w = 0; w < 2; w++) for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)31, (size_t)32, (size_t)160, (size_t)4097, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)131072, (size_t)131073, (size_t)200000}) for (long cut : {0L, 1L, 5L}) put(fmt("%zu random bytes, source ends %ld early, world %d", n, cut, w), "dp_randombytes", [=] { return std::vector<A>{O(n, n % 3), I(n)}; }, [=](uint8_t **p) { return dp_randombytes(p[0], n); }, cut > (long)n ? 0 : (long)n - cut, w, true);
}
#define W(f) XSTR(f)
void core_cases(int t) {
    static Bytes pk = key(0).pk, sk = key(0).sk, m = mc::prf("w32v", 32); rkey(0); static Bytes c = ref_compact(rkey(0), m, mc::prf("w32n32", 40)), fu = ref_full(rkey(0), m, mc::prf("w32o", 32));
    // full mode and opening, 64-bit lengths in a 32-bit memory
    for (size_t n : t ? std::vector<size_t>{0, 1, 2, 31, 32, 33, 63, 64, 65} : std::vector<size_t>{0, 1, 64, 65}) put(fmt("full sign of %zu bytes", n), "crypto_sign_dilithium_ed25519_sphincs", [=] { return std::vector<A>{O(52342 + n, n % 8), B(Bytes(8, 0x11)), B(mc::prf("w32f", n)), L(n), B(sk)}; }, [=](uint8_t **p) { return crypto_sign_dilithium_ed25519_sphincs(p[0], (unsigned long long *)p[1], p[2], n, p[3]); }, 32, n & 1);
    for (int md = 0; md < 2; md++) {
        Bytes s = md ? fu : c; const char *of = md ? "crypto_sign_dilithium_ed25519_sphincs_open" : "crypto_sign_compact_dilithium_ed25519_sphincs_open", *vf = md ? "crypto_verify_dilithium_ed25519_sphincs" : "crypto_verify_compact_dilithium_ed25519_sphincs", *sf = md ? "crypto_sign_dilithium_ed25519_sphincs" : "crypto_sign_compact_dilithium_ed25519_sphincs";
        auto op = [&](const std::string &w, Bytes x, unsigned long long len) { put(fmt("%s open %s", mname(md), w.c_str()), of, [=] { return std::vector<A>{O(64, len % 3), B(Bytes(8, 0x22)), B(x, len % 7), L(len), B(pk)}; }, [=](uint8_t **p) { return c_open(md, p[0], (unsigned long long *)p[1], p[2], len, p[3]); }); };
        auto ve = [&](const std::string &w, Bytes mm, unsigned long long ml, Bytes x, unsigned long long len) { put(fmt("%s verify %s", mname(md), w.c_str()), vf, [=] { return std::vector<A>{B(mm), L(ml), B(x, len % 7), L(len), B(pk, 3)}; }, [=](uint8_t **p) { return c_verify(md, p[0], ml, p[1], len, p[2]); }); };
        op("valid", s, s.size()); ve("valid", m, 32, s, s.size()); op("other mode", md ? c : fu, (md ? c : fu).size());
        size_t st = md ? (t ? 61 : 1371) : (t ? 1 : 7); for (size_t b = 0; b < s.size(); b += b < 4 ? 1 : st) { Bytes x = xorb(s, b, 1 << b % 8); op(fmt("with byte %zu changed", b), x, x.size()); ve(fmt("with byte %zu changed", b), m, 32, x, x.size()); }
        for (unsigned long long h : HI) { op(fmt("with signed length +%llx", h), s, s.size() + h); ve(fmt("with signed length +%llx", h), m, 32, s, s.size() + h); ve(fmt("with message length +%llx", h), m, 32 + h, s, s.size()); ve(fmt("with both lengths +%llx", h), m, 32 + h, s, s.size() + h); op(fmt("with signed length %llx", h), s, h); ve(fmt("with signed length %llx", h), m, 32, s, h);
            put(fmt("%s sign with message length +%llx", mname(md), h), sf, [=] { return std::vector<A>{O(md ? 52374 : 2558), B(Bytes(8, 0x33)), B(m), L(32 + h), B(sk)}; }, [=](uint8_t **p) { return c_sign(md, p[0], (unsigned long long *)p[1], p[2], 32 + h, p[3]); }, 40); }
        for (int v : {0, 1, 31, 33, 63, 64, 65, 128, 255}) { Bytes x = s; x[1] = (uint8_t)v; op(fmt("with length byte %d", v), x, x.size()); }
        for (long d : {-33L, -32L, -1L, 1L, 32L}) { Bytes x = s; x.resize(s.size() + d, 7); op(fmt("of %zu bytes", x.size()), x, x.size()); ve(fmt("of %zu signed bytes", x.size()), m, 32, x, x.size()); }
        for (size_t n = 0; n < 3; n++) op(fmt("of %zu bytes", n), sub(s, 0, n), n);
    }
    // stand-alone Dilithium verification of the hybrid interface
    { static Bytes dpk0 = sub(pk, 32, 1312), d0 = rkey(0).dsign(m); auto vd = [&](const std::string &w, Bytes mm, unsigned long long ml, Bytes x, unsigned long long len) { put("stand-alone Dilithium verification " + w, "crypto_verify_dilithium", [=] { return std::vector<A>{B(mm), L(ml), B(x, len % 7), L(len), B(dpk0)}; }, [=](uint8_t **p) { return crypto_verify_dilithium(p[0], ml, p[1], len, p[2]); }); };
      for (size_t n = 0; n <= 66; n++) { Bytes x = mc::prf("w32sd", n); vd(fmt("of %zu bytes", n), x, n, n ? rkey(0).dsign(x) : d0, 2420); } for (size_t b = 0; b < 2420; b += t ? 1 : 11) vd(fmt("with byte %zu changed", b), m, 32, xorb(d0, b, 1 << b % 8), 2420);
      for (long d : {-2420L, -1L, 1L, 32L}) { Bytes x = d0; x.resize(2420 + d, 0); vd(fmt("of a %zu-byte signature", x.size()), m, 32, x, x.size()); } for (unsigned long long h : HI) { vd(fmt("with signature length +%llx", h), m, 32, d0, 2420 + h); vd(fmt("with message length +%llx", h), m, 32 + h, d0, 2420); vd(fmt("with signature length %llx", h), m, 32, d0, h); } }
    // Dilithium, SPHINCS+, Ed25519
    static Bytes dsk = sub(sk, 64, 2560), dpk = sub(pk, 32, 1312), ssk = sub(sk, 3936, 128), spk = sub(pk, 1344, 64), esk = sub(sk, 0, 64), epk = sub(pk, 0, 32);
    for (int i = 0; i < (t ? 40 : 6); i++) { Bytes seed = i & 1 ? special(i * 9, 32) : mc::prf("w32d" + std::to_string(i), 32); put(fmt("Dilithium key pair %d", i), W(DIL(crypto_sign_keypair_seed)), [=] { return std::vector<A>{O(1312, i % 8), O(2560), B(seed, i % 4)}; }, [](uint8_t **p) { return DIL(crypto_sign_keypair_seed)(p[0], p[1], p[2]); }); }
    for (size_t n = 0; n < (t ? 300 : 40); n++) { size_t len = n < 20 || t ? n : 100 + n * 7; put(fmt("Dilithium signature of %zu bytes", len), W(DIL(crypto_sign_signature)), [=] { return std::vector<A>{O(2420, n % 8), Z(), B(mc::prf("w32ds", len), (int)(n % 5)), I(len), B(dsk)}; }, [=](uint8_t **p) { return DIL(crypto_sign_signature)(p[0], (size_t *)p[1], p[2], len, p[3]); });
        put(fmt("Dilithium sign of %zu bytes", len), W(DIL(crypto_sign)), [=] { return std::vector<A>{O(2420 + len), Z(), B(mc::prf("w32ds", len)), I(len), B(dsk)}; }, [=](uint8_t **p) { return DIL(crypto_sign)(p[0], (size_t *)p[1], p[2], len, p[3]); });
        Bytes msg = mc::prf("w32ds", len), sig = rkey(0).dsign(msg); if (n % 4 == 3) sig = xorb(sig, n * 59 % 2420, 4); put(fmt("Dilithium verification of %zu bytes", len), W(DIL(crypto_sign_verify)), [=] { return std::vector<A>{B(sig, n % 3), I(sig.size()), B(msg), I(len), B(dpk)}; }, [=](uint8_t **p) { return DIL(crypto_sign_verify)(p[0], sig.size(), p[1], len, p[2]); });
        Bytes sm = cat({sig, msg}); put(fmt("Dilithium open of %zu bytes", len), W(DIL(crypto_sign_open)), [=] { return std::vector<A>{O(sm.size()), Z(), B(sm), I(sm.size()), B(dpk)}; }, [=](uint8_t **p) { return DIL(crypto_sign_open)(p[0], (size_t *)p[1], p[2], sm.size(), p[3]); }); }
    static Bytes ds = rkey(0).dsign(m); for (uint64_t v : {0ull, 2419ull, 2421ull, 0xFFFFFFFFull, 0x80000000ull, 0x10974ull}) put(fmt("Dilithium verification with signature length %llu", (unsigned long long)v), W(DIL(crypto_sign_verify)), [=] { return std::vector<A>{B(cat({ds, Bytes(1, 0)})), I(v), B(m), I(32), B(dpk)}; }, [=](uint8_t **p) { return DIL(crypto_sign_verify)(p[0], (size_t)v, p[1], 32, p[2]); });
    for (size_t n : {(size_t)0, (size_t)1, (size_t)100, (size_t)2419}) put(fmt("Dilithium open of %zu bytes in all", n), W(DIL(crypto_sign_open)), [=] { return std::vector<A>{O(n), Z(), B(sub(ds, 0, n)), I(n), B(dpk)}; }, [=](uint8_t **p) { return DIL(crypto_sign_open)(p[0], (size_t *)p[1], p[2], n, p[3]); });
    for (int i = 0; i < (t ? 20 : 4); i++) put(fmt("SPHINCS+ key pair %d", i), W(SPH(crypto_sign_seed_keypair)), [=] { return std::vector<A>{O(64, i), O(128), B(i & 1 ? special(i * 9, 96) : mc::prf("w32sk" + std::to_string(i), 96))}; }, [](uint8_t **p) { return SPH(crypto_sign_seed_keypair)(p[0], p[1], p[2]); });
    static Bytes ss = sub(fu, 66 + 32 + 2420, 49856); for (size_t n : t ? std::vector<size_t>{0, 1, 32, 135, 136, 137, 1000} : std::vector<size_t>{0, 137}) put(fmt("SPHINCS+ signature of %zu bytes", n), W(SPH(crypto_sign_signature)), [=] { return std::vector<A>{O(49856), Z(), B(mc::prf("w32ss", n)), I(n), B(ssk)}; }, [=](uint8_t **p) { return SPH(crypto_sign_signature)(p[0], (size_t *)p[1], p[2], n, p[3]); }, 32);
    auto sv = [&](const std::string &w, Bytes sig, uint64_t sl, Bytes msg) { put("SPHINCS+ verification " + w, W(SPH(crypto_sign_verify)), [=] { return std::vector<A>{B(sig, msg.size() % 7), I(sl), B(msg), I(msg.size()), B(spk)}; }, [=](uint8_t **p) { return SPH(crypto_sign_verify)(p[0], (size_t)sl, p[1], msg.size(), p[2]); }); };
    sv("of a valid signature", ss, 49856, m); for (size_t b = 0; b < 49856; b += t ? 97 : 1009) sv(fmt("with byte %zu changed", b), xorb(ss, b, 1 << b % 8), 49856, m); for (uint64_t v : {0ull, 49855ull, 49857ull, 0xFFFFFFFFull, 0x8000C2C0ull}) sv(fmt("with length %llu", (unsigned long long)v), ss, v, m);
    put("SPHINCS+ open", W(SPH(crypto_sign_open)), [=] { return std::vector<A>{O(32 + 49856), Z(), B(cat({ss, m})), I(32 + 49856), B(spk)}; }, [=](uint8_t **p) { return SPH(crypto_sign_open)(p[0], (size_t *)p[1], p[2], 32 + 49856, p[3]); });
    for (size_t n = 0; n < (t ? 300 : 40); n++) { size_t len = n < 20 || t ? n : 100 + n * 13; Bytes msg = mc::prf("w32e", len), sm = cat({ref::ed::sign(msg, esk), msg}); put(fmt("Ed25519 sign of %zu bytes", len), W(crypto_sign), [=] { return std::vector<A>{O(64 + len, n % 8), B(Bytes(8, 0)), B(msg, (int)(n % 5)), L(len), B(esk)}; }, [=](uint8_t **p) { return ::crypto_sign(p[0], (unsigned long long *)p[1], p[2], len, p[3]); });
        if (n % 3 == 2) sm = xorb(sm, n * 7 % sm.size(), 1 << n % 8); put(fmt("Ed25519 open of %zu bytes", len), W(crypto_sign_open), [=] { return std::vector<A>{O(64 + len), B(Bytes(8, 0)), B(sm), L(64 + len), B(epk)}; }, [=](uint8_t **p) { return ::crypto_sign_open(p[0], (unsigned long long *)p[1], p[2], 64 + len, p[3]); }); }
    for (int i = 0; i < (t ? 100 : 12); i++) { Bytes seed = i & 1 ? special(i * 9, 32) : mc::prf("w32es" + std::to_string(i), 32); put(fmt("Ed25519 key pair %d", i), W(crypto_sign_keypair_seed), [=] { return std::vector<A>{O(32), O(64), B(seed)}; }, [](uint8_t **p) { return ::crypto_sign_keypair_seed(p[0], p[1], p[2]); }); Bytes u = i % 3 ? special(i * 5 + 1, 32) : mc::prf("w32u" + std::to_string(i), 32); put(fmt("X25519 %d", i), W(crypto_scalarmult), [=] { return std::vector<A>{O(32), B(seed), B(u)}; }, [](uint8_t **p) { return crypto_scalarmult(p[0], p[1], p[2]); }); put(fmt("X25519 of the base point %d", i), W(crypto_scalarmult_base), [=] { return std::vector<A>{O(32), B(seed)}; }, [](uint8_t **p) { return crypto_scalarmult_base(p[0], p[1]); }); }
    // symmetric operations over lengths
    for (size_t n = 0; n < (t ? 700 : 300); n += n < 70 || t ? 1 : 3) { int sh = n % 8;
        put(fmt("SHA-512 of %zu bytes", n), W(crypto_hash), [=] { return std::vector<A>{O(64), B(mc::prf("w32h", n), sh), L(n)}; }, [=](uint8_t **p) { return crypto_hash(p[0], p[1], n); });
        put(fmt("Poly1305 of %zu bytes", n), W(crypto_onetimeauth), [=] { return std::vector<A>{O(16), B(mc::prf("w32h", n), sh), L(n), B(mc::prf("w32k" + std::to_string(n % 9), 32))}; }, [=](uint8_t **p) { return crypto_onetimeauth(p[0], p[1], n, p[2]); });
        put(fmt("XSalsa20 of %zu bytes", n), W(crypto_stream_xor), [=] { return std::vector<A>{O(n), B(mc::prf("w32h", n), sh), L(n), B(mc::prf("w32q", 24)), B(mc::prf("w32k", 32))}; }, [=](uint8_t **p) { return crypto_stream_xor(p[0], p[1], n, p[2], p[3]); });
        Bytes msg = cat({Bytes(32, 0), mc::prf("w32h", n)}); put(fmt("secretbox of %zu bytes", n), W(crypto_secretbox), [=] { return std::vector<A>{O(n + 32), B(msg, sh), L(n + 32), B(mc::prf("w32q", 24)), B(mc::prf("w32k", 32))}; }, [=](uint8_t **p) { return crypto_secretbox(p[0], p[1], n + 32, p[2], p[3]); });
        if (n % 5 == 0) { Bytes cb(n + 32); crypto_secretbox(cb.data(), msg.data(), n + 32, mc::prf("w32q", 24).data(), mc::prf("w32k", 32).data()); if (n % 10 == 5) cb[16 + n % 16] ^= 8; put(fmt("secretbox open of %zu bytes", n), W(crypto_secretbox_open), [=] { return std::vector<A>{B(Bytes(n + 32, 0)), B(cb, sh), L(n + 32), B(mc::prf("w32q", 24)), B(mc::prf("w32k", 32))}; }, [=](uint8_t **p) { return crypto_secretbox_open(p[0], p[1], n + 32, p[2], p[3]); }); }
        put(fmt("SHA3-512 of %zu bytes", n), "sha3_512", [=] { return std::vector<A>{O(64), B(mc::prf("w32h", n), sh), I(n)}; }, [=](uint8_t **p) { sha3_512(p[0], p[1], n); return 0; });
        put(fmt("SHA3-384 of %zu bytes", n), "sha3_384", [=] { return std::vector<A>{O(48), B(mc::prf("w32h", n), sh), I(n)}; }, [=](uint8_t **p) { sha3_384(p[0], p[1], n); return 0; });
        put(fmt("SHA3-256 of %zu bytes", n), "sha3_256", [=] { return std::vector<A>{O(32), B(mc::prf("w32h", n), sh), I(n)}; }, [=](uint8_t **p) { sha3_256(p[0], p[1], n); return 0; });
        size_t o = (n * 37) % 400; put(fmt("SHAKE-256 of %zu bytes to %zu", n, o), "shake256", [=] { return std::vector<A>{O(o, 7 - sh), I(o), B(mc::prf("w32h", n), sh), I(n)}; }, [=](uint8_t **p) { shake256(p[0], o, p[1], n); return 0; });
        put(fmt("SHAKE-128 of %zu bytes to %zu", n, o), "shake128", [=] { return std::vector<A>{O(o, 7 - sh), I(o), B(mc::prf("w32h", n), sh), I(n)}; }, [=](uint8_t **p) { shake128(p[0], o, p[1], n); return 0; }); }
    // incremental contexts: sequences of requests, split inputs and outputs, clones
    auto ex = [&](const std::string &w, size_t sl, Bytes req) { size_t tot = 0; for (auto q : req) tot += q; put("seed expander, requests " + w, "glue_expander", [=] { return std::vector<A>{B(mc::prf("w32p", sl), sl % 8), I(sl), B(req), I(req.size()), O(tot, tot % 5)}; }, [=](uint8_t **p) { return glue_expander(p[0], sl, p[1], req.size(), p[2]); }); };
    { std::vector<uint8_t> q = t ? std::vector<uint8_t>{0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 135, 136, 137, 255} : std::vector<uint8_t>{0, 1, 4, 5, 8, 12, 137}; for (auto a : q) for (auto b : q) for (auto d : q) ex(fmt("%d %d %d", a, b, d), 32 + (a + b + d) % 40, {a, b, d}); ex("1 x 300", 48, Bytes(300, 1)); }
    { const size_t DL[] = {0, 0, 32, 48, 64}; std::vector<uint8_t> q = {0, 1, 71, 72, 73, 104, 135, 136, 137, 168, 200}; for (int alg = 0; alg < 5; alg++) for (auto a : q) for (auto b : q) for (size_t at = 0; at < 3; at++) { if (!t && (a + b + at + alg) % 3) continue; Bytes ab = {a, b}, sq = alg < 2 ? Bytes{b, a, 33} : Bytes{}; size_t tot = alg < 2 ? 2 * (size_t)(a + b + 33) : 2 * DL[alg];
        put(fmt("incremental hash %d, pieces %d %d, clone at %zu", alg, a, b, at), "glue_inc", [=] { return std::vector<A>{I(alg), B(mc::prf("w32i", a + b), a % 8), B(ab), I(2), I(at), B(sq), I(sq.size()), O(tot, b % 8)}; }, [=](uint8_t **p) { return glue_inc(alg, p[0], p[1], 2, at, p[2], sq.size(), p[3]); }); }
      for (int alg = 5; alg < 7; alg++) for (int n = 0; n < 256; n += t ? 1 : 15) { size_t tot = 4 * (alg == 5 ? 168 : 136); put(fmt("block hash %d of %d bytes with clone", alg, n), "glue_inc", [=] { return std::vector<A>{I(alg), B(mc::prf("w32i", n), n % 8), B(Bytes{(uint8_t)n}), I(1), I(9), B(Bytes{}), I(0), O(tot)}; }, [=](uint8_t **p) { return glue_inc(alg, p[0], p[1], 1, 9, p[2], 0, p[3]); }); } }
    // boxes and random key pairs
    for (size_t n = 0; n < 300; n += n < 20 || t ? 1 : 23) { Bytes msg = cat({Bytes(32, 0), mc::prf("w32b", n)}), nn = mc::prf("w32q", 24), y = mc::prf("w32y" + std::to_string(n % 5), 32), x = mc::prf("w32z", 32);
        put(fmt("box of %zu bytes", n), W(crypto_box), [=] { return std::vector<A>{O(n + 32), B(msg, n % 8), L(n + 32), B(nn), B(y), B(x)}; }, [=](uint8_t **p) { return crypto_box(p[0], p[1], n + 32, p[2], p[3], p[4]); });
        Bytes cb(n + 32); crypto_box(cb.data(), msg.data(), n + 32, nn.data(), y.data(), x.data()); if (n % 3 == 2) cb[16 + n % (n + 16)] ^= 4; put(fmt("box open of %zu bytes", n), W(crypto_box_open), [=] { return std::vector<A>{B(Bytes(n + 32, 0)), B(cb, n % 8), L(n + 32), B(nn), B(y), B(x)}; }, [=](uint8_t **p) { return crypto_box_open(p[0], p[1], n + 32, p[2], p[3], p[4]); }); }
    for (int w = 0; w < 2; w++) for (long k : {0L, 31L, 32L}) { put(fmt("box key pair, %ld random bytes, world %d", k, w), W(crypto_box_keypair), [=] { return std::vector<A>{O(32), O(32)}; }, [](uint8_t **p) { return crypto_box_keypair(p[0], p[1]); }, k, w, true); put(fmt("Ed25519 key pair, %ld random bytes, world %d", k, w), W(crypto_sign_keypair), [=] { return std::vector<A>{O(32), O(64)}; }, [](uint8_t **p) { return ::crypto_sign_keypair(p[0], p[1]); }, k, w, true); }
}
// allocation number k fails inside call i: the program has to end there
std::vector<std::pair<size_t, long>> oom; std::vector<size_t> oomc;
uint64_t oom_setup(int t) {
    cs.clear(); facade_cases(0); core_cases(0); oom.clear(); oomc.clear(); std::vector<std::string> seen; std::vector<size_t> pick; for (size_t i = 0; i < cs.size(); i++) { size_t k = 0; for (auto &s : seen) k += s == cs[i].f; if (k >= 3 + 3 * (size_t)t) continue; seen.push_back(cs[i].f); pick.push_back(i); } oomc = pick; return pick.size();
}
mc::Reg v3({"v_oom", "every exported operation on wasm32, re-executed once per allocation that can fail (the first 60 quick, 600 thorough, and the last): the program ends there, no result is delivered",
    oom_setup,
    [](uint64_t i) { const Case &c = cs[oomc[i]]; std::vector<A> args = c.args(); Bytes tape = env::expect("w32", 0, c.tape >= 0 ? c.tape : 0); R r0 = call(c.f.c_str(), args, tape, c.world); if (!r0.ok) { mc::outcome("WebAssembly cannot be run here"); return; } if (r0.missing) { mc::outcome("operation not exported"); return; } long cap = mc::tier ? 600 : 60;
        for (long k = 0; k < r0.seen; k++) { if (k >= cap && k != r0.seen - 1) continue; R r = call(c.f.c_str(), args, tape, c.world, k); if (!r.ok) { mc::outcome("WebAssembly cannot be run here"); return; } mc::transition(); mc::state(mc::mix(i, k)); if (!r.err.empty()) mc::fail("%s on wasm32, allocation %ld fails: %s", c.what.c_str(), k, r.err.c_str()); if (r.exited < 0) mc::fail("%s on wasm32, allocation %ld fails: the call returns %d", c.what.c_str(), k, r.rc); if (r.exited == 0) mc::fail("%s on wasm32, allocation %ld fails: the program ends with status 0", c.what.c_str(), k); mc::outcome("program ended"); }
        if (!r0.seen) mc::outcome("no allocation"); mc::trace(); },
    [](uint64_t i) { return cs[oomc[i]].what + " with each allocation failing"; }, 120});
std::string desc(uint64_t i) { return i < cs.size() ? cs[i].what : fmt("memory block of case %lu", (unsigned long)(i - cs.size())); }
void runcase(uint64_t i) { compare(cs[i]); mc::trace(); }
mc::Reg v1({"v_facade", "every function exported to WebAssembly, compiled for wasm32 and run in node, against the native build on the same arguments and random bytes: all message lengths 0..70, extreme lengths, pointer subsets, randomness running out at every offset in both JavaScript environments, altered signatures, keys and messages, all length bytes, alignments; every allocation size",
    [](int t) -> uint64_t { cs.clear(); facade_cases(t); return cs.size() + 700; },
    [](uint64_t i) { if (i < cs.size()) return runcase(i); uint64_t j = i - cs.size(), n = j < 600 ? j : j < 690 ? 600 + (j - 600) * 997 : 0x7FFFFFFFull + (j - 690) * 0x1FFFFFFF;
        for (int k = 0; k < 2; k++) { R r = call("memory", {I(n), I(k)}); if (!r.ok) { mc::outcome("WebAssembly cannot be run here"); return; } mc::transition(2); mc::state(mc::mix(n, k)); if (!r.err.empty()) mc::fail("block of %lu bytes on wasm32: %s", (unsigned long)n, r.err.c_str()); if (n < 1000000 && r.rc) mc::fail("block of %lu bytes refused on wasm32", (unsigned long)n); if (n > 1000000000 && !r.rc) mc::fail("block of %lu bytes granted on wasm32", (unsigned long)n); if (!r.rc && r.dirty) mc::fail("block of %lu bytes handed back on wasm32 with %ld bytes not erased", (unsigned long)n, r.dirty); if (r.live) mc::fail("block of %lu bytes not handed back on wasm32", (unsigned long)n); mc::outcome(r.rc ? "no memory" : "erased and handed back"); }
        mc::trace(); },
    [](uint64_t i) { return desc(i); }, 120});
mc::Reg v2({"v_core", "core and component operations compiled for wasm32 against the native build: full mode, opening and verification with altered bytes and with 64-bit lengths that wrap in 32 bits, Dilithium, SPHINCS+, Ed25519, X25519, boxes and hashes over lengths and alignments",
    [](int t) -> uint64_t { cs.clear(); core_cases(t); return cs.size(); }, runcase, desc, 120});
}
