// C21: an operation is run once for every secret of an enumerated set, all public inputs fixed; the complete sequence of
// program points and addresses must be the same for all of them (a 2-safety property, decided by enumeration).
#include "ct_rt.hpp"
#include "gen.hpp"
#include <sys/mman.h>
using namespace im;
#define SPH(x) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##x
#define DIL(x) PQCLEAN_DILITHIUM2_CLEAN_##x
namespace {
uint8_t *M;   // fixed addresses: secret at M, public inputs at M+8192, outputs at M+16384
struct Op { std::string name; size_t n; int cost; std::function<void(uint8_t *s, uint8_t *pub, uint8_t *out)> run; std::function<void(uint8_t *pub)> prep; };
std::vector<Op> T; struct Case { int op; uint64_t lo, hi; }; std::vector<Case> cs;
// the enumerated secrets: 256 rows in which every position takes every value, constants, every single-bit change of a base, and multiples/neighbours of field and group orders
size_t nwin(size_t n) { return 2 * ((n - 1) + (n >= 4 ? n - 3 : 0) + (n >= 8 ? n - 7 : 0)); } // windows of 2, 4 and 8 bytes, 00 or FF, at every position
uint64_t nsecrets(size_t n) { return 256 + 6 + 8 * n + 24 + nwin(n); }
Bytes secret(size_t n, uint64_t k) {
    Bytes b(n); if (k < 256) { for (size_t j = 0; j < n; j++) b[j] = (uint8_t)(k + j * 37 + (j >> 3) * 11); return b; } k -= 256;
    static const uint8_t c[6] = {0, 0xFF, 1, 0x80, 0x55, 0x7F}; if (k < 6) return Bytes(n, c[k]); k -= 6;
    if (k < 8 * n) { b = mc::prf("ctbase", n); b[k / 8] ^= 1 << (k % 8); return b; } k -= 8 * n;
    if (k < nwin(n)) { b = mc::prf("ctbase", n); uint8_t v = k & 1 ? 0xFF : 0; k /= 2; for (size_t w : {2, 4, 8}) { if (n < w) break; if (k < n - w + 1) { memset(&b[k], v, w); return b; } k -= n - w + 1; } } else k -= nwin(n);
    static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}, P[32] = {0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f};
    const uint8_t *o = k < 12 ? L : P; k %= 12; for (size_t j = 0; j < n; j++) b[j] = o[j % 32]; if (k < 6) b[0] += (uint8_t)((int)k - 3); else { b.assign(n, 0); b[0] = (uint8_t)(k - 5); if (k > 8) b[n - 1] = 0x40; } return b;
}
void build() {
    if (!T.empty()) return; M = (uint8_t *)mmap((void *)0x200000000000, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ct::arena_n = 1 << 24; ct::arena = (uint8_t *)mmap((void *)0x210000000000, ct::arena_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    auto add = [](const char *n, size_t k, int cost, std::function<void(uint8_t *, uint8_t *, uint8_t *)> r, std::function<void(uint8_t *)> p = nullptr) { T.push_back({n, k, cost, r, p}); };
    auto rnd = [](const char *l, size_t n) { return [=](uint8_t *p) { Bytes b = mc::prf(l, n); memcpy(p, b.data(), n); }; };
    add("Ed25519 key generation: seed", 32, 1, [](uint8_t *s, uint8_t *, uint8_t *o) { crypto_sign_keypair_seed(o, o + 64, s); });
    add("Ed25519 signing: secret key", 32, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; crypto_sign(o, &l, p, 100, s); }, rnd("cte", 100));
    add("Ed25519 signing: message content", 100, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; crypto_sign(o, &l, s, 100, p); }, rnd("cts", 64));
    add("Curve25519: scalar", 32, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_scalarmult(o, s, p); }, rnd("ctp", 32));
    add("Curve25519 base: scalar", 32, 1, [](uint8_t *s, uint8_t *, uint8_t *o) { crypto_scalarmult_base(o, s); });
    add("box shared key: secret key", 32, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_box_beforenm(o, p, s); }, rnd("ctb", 32));
    add("secretbox: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_secretbox(o, p, 200, p + 200, s); }, [](uint8_t *p) { memset(p, 0, 32); Bytes b = mc::prf("ctq", 192); memcpy(p + 32, b.data(), 192); });
    add("secretbox: plaintext", 168, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { memset(p, 0, 32); memcpy(p + 32, s, 168); crypto_secretbox(o, p, 200, p + 200, p + 224); }, rnd("ctr", 300));
    add("secretbox opening: tag of a refused box", 16, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p + 16, s, 16); crypto_secretbox_open(o, p, 200, p + 200, p + 224); }, rnd("ctt", 300));
    add("Poly1305: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_onetimeauth(o, p, 100, s); }, rnd("cto", 100));
    add("Poly1305: message content", 100, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_onetimeauth(o, s, 100, p); }, rnd("ctk", 32));
    add("Poly1305 verification: refused tag", 16, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_onetimeauth_verify(s, p, 100, p + 100); }, rnd("ctv", 132));
    add("XSalsa20: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_stream(o, 200, p, s); }, rnd("ctn", 24));
    add("16-byte comparison: position and value of the difference", 16, 0, [](uint8_t *s, uint8_t *p, uint8_t *) { crypto_verify_16(s, p); }, rnd("ctbase", 16));
    add("32-byte comparison: position and value of the difference", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *) { crypto_verify_32(s, p); }, rnd("ctbase", 32));
    add("SHA-512: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { crypto_hash(o, s, 200); });
    add("SHA3-512: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { sha3_512(o, s, 200); });
    add("SHAKE-256: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { shake256(o, 400, s, 200); });
    add("SHAKE seed expander: seed", 64, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { seedexpander_wrapper(s, 64, o, 300); });
    add("SHA-512: longer content", 700, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { crypto_hash(o, s, 700); });
    add("SHAKE-256: longer content", 700, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { shake256(o, 64, s, 700); });
    add("SHAKE-128: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { shake128(o, 400, s, 200); });
    add("SHA3-256: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { sha3_256(o, s, 200); });
    add("SHA3-384: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { sha3_384(o, s, 200); });
    add("SHA3-512 incremental with a clone: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { sha3_512incctx c, d; sha3_512_inc_init(&c); sha3_512_inc_absorb(&c, s, 90); sha3_512_inc_ctx_clone(&d, &c); sha3_512_inc_absorb(&c, s + 90, 110); sha3_512_inc_finalize(o, &c); sha3_512_inc_finalize(o + 64, &d); });
    add("SHAKE-256 incremental with a clone: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { shake256incctx c, d; shake256_inc_init(&c); shake256_inc_absorb(&c, s, 150); shake256_inc_ctx_clone(&d, &c); shake256_inc_absorb(&c, s + 150, 50); shake256_inc_finalize(&c); shake256_inc_squeeze(o, 100, &c); shake256_inc_squeeze(o + 100, 100, &c); shake256_inc_ctx_release(&c); shake256_inc_ctx_release(&d); });
    add("SHAKE-128 blocks: content", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { shake128ctx c; shake128_absorb(&c, s, 200); shake128_squeezeblocks(o, 2, &c); shake128_ctx_release(&c); });
    add("SHAKE expander requests: seed", 64, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { seedexpander_state st; seedexpander_init(&st, s, 64); seedexpander(&st, o, 13); seedexpander(&st, o + 13, 200); seedexpander_release(&st); });
    add("SHAKE seed expander: longer seed", 200, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { seedexpander_wrapper(s, 200, o, 300); });
    add("Salsa20 stream: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_stream_salsa20(o, 200, p, s); }, rnd("ctn", 24));
    add("Salsa20 xor: plaintext", 200, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_stream_salsa20_xor(o, s, 200, p, p + 24); }, rnd("ctx", 56));
    add("XSalsa20 xor: plaintext", 200, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_stream_xor(o, s, 200, p, p + 24); }, rnd("ctx", 56));
    add("XSalsa20 xor: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_stream_xor(o, p + 24, 200, p, s); }, rnd("ctx", 256));
    add("HSalsa20: key", 32, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { static const uint8_t sg[17] = "expand 32-byte k"; crypto_core_hsalsa20(o, p, s, sg); }, rnd("ctn", 24));
    add("Poly1305: longer message", 500, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_onetimeauth(o, s, 500, p); }, rnd("ctk", 32));
    add("box: secret key", 32, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { crypto_box(o, p, 100, p + 100, p + 124, s); }, [](uint8_t *p) { Bytes b = mc::prf("ctbx", 200); memcpy(p, b.data(), 200); memset(p, 0, 32); });
    add("box: plaintext", 68, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p + 32, s, 68); crypto_box(o, p, 100, p + 100, p + 124, p + 156); }, [](uint8_t *p) { Bytes b = mc::prf("ctby", 200); memcpy(p, b.data(), 200); memset(p, 0, 32); });
    add("box with a precomputed key: plaintext", 168, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p + 32, s, 168); crypto_box_afternm(o, p, 200, p + 200, p + 224); }, [](uint8_t *p) { Bytes b = mc::prf("ctbz", 300); memcpy(p, b.data(), 300); memset(p, 0, 32); });
    add("box opening: tag of a refused box", 16, 0, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p + 16, s, 16); crypto_box_open_afternm(o, p, 200, p + 200, p + 224); }, rnd("ctt", 300));
    add("Ed25519 signing: longer message", 300, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; crypto_sign(o, &l, s, 300, p); }, rnd("cts", 64));
    add("Ed25519 signing: one-byte message and second key half", 33, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; memcpy(p, s, 32); crypto_sign(o, &l, s + 32, 1, p); }, rnd("cts", 64));
    add("96-byte seed expansion: seed", 96, 0, [](uint8_t *s, uint8_t *, uint8_t *o) { crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(s, o); });
    add("hybrid key generation: Ed25519 part of the seed", 32, 2, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p, s, 32); crypto_sign_dilithium_ed25519_sphincs_keypair_seed(o, o + 2048, p); }, rnd("cth", 160));
    add("hybrid key generation: SPHINCS+ part of the seed", 96, 2, [](uint8_t *s, uint8_t *p, uint8_t *o) { memcpy(p + 64, s, 96); crypto_sign_dilithium_ed25519_sphincs_keypair_seed(o, o + 2048, p); }, rnd("cth", 160));
    static Key ck = ref_keypair(mc::prf("ctck", 160)); auto sk = [](uint8_t *p) { memcpy(p, ck.sk.data(), SK); Bytes b = mc::prf("ctm", 64); memcpy(p + 4096 + 64, b.data(), 64); env::reset("ct"); };
    add("compact signing: Ed25519 secret", 32, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; memcpy(p, s, 32); crypto_sign_compact_dilithium_ed25519_sphincs(o, &l, p + 4160, 64, p); }, sk);
    add("compact signing: SPHINCS+ secrets", 64, 1, [](uint8_t *s, uint8_t *p, uint8_t *o) { static unsigned long long l; memcpy(p + 3936, s, 64); crypto_sign_compact_dilithium_ed25519_sphincs(o, &l, p + 4160, 64, p); }, sk);
    add("SPHINCS+ key generation: seed", 96, 2, [](uint8_t *s, uint8_t *, uint8_t *o) { SPH(crypto_sign_seed_keypair)(o, o + 64, s); });
}
uint64_t once(Op &o, const Bytes &s, std::vector<uint64_t> *rec = nullptr) { memset(M, 0, 1 << 18); if (o.prep) o.prep(M + 8192); memcpy(M, s.data(), s.size()); ct::rec = rec; ct::start(); o.run(M, M + 8192, M + 16384); ct::stop(); ct::rec = nullptr; mc::transition(ct::n); return ct::h; }
mc::Reg m({"ct_traces", "for each of 47 operations on secrets: 256 rows covering every value at every byte, constants, every single-bit change of a base secret, every window of 2, 4 or 8 zero or 0xFF bytes, neighbours of the field and group orders; complete traces (basic blocks, load and store addresses) compared",
    [](int t) -> uint64_t { build(); cs.clear(); for (int c = 2; c >= 0; c--) for (size_t i = 0; i < T.size(); i++) if (T[i].cost == c) { uint64_t n = nsecrets(T[i].n), step = c == 2 ? 8 : c == 1 ? 16 : 64; if (c == 2 && !t) n = 256 + 6; for (uint64_t o = 0; o < n; o += step) cs.push_back({(int)i, o, std::min(n, o + step)}); } return cs.size(); },
    [](uint64_t i) { auto &c = cs[i]; Op &o = T[c.op]; static int last = -1; static uint64_t want, len; Bytes b0 = mc::prf("ctother", o.n); if (last != c.op) { once(o, b0); want = once(o, b0); len = ct::n; if (once(o, b0) != want) mc::fail("%s: two runs on the same data take different traces", o.name.c_str()); last = c.op; }
        for (uint64_t k = c.lo; k < c.hi; k++) { Bytes s = secret(o.n, k); uint64_t g = once(o, s); if (g != want) { std::vector<uint64_t> a, b; once(o, b0, &a); once(o, s, &b); size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) p++; mc::fail("%s: the trace depends on the secret: %s differs from %s after %zu of %lu events (%s)", o.name.c_str(), mc::hex(s).c_str(), mc::hex(b0).c_str(), p, (unsigned long)len, p < a.size() && a[p] >> 63 ? "control flow" : "address or length"); } mc::state(mc::mix(c.op, k)); }
        mc::outcome("same trace for all secrets"); mc::trace(); },
    [](uint64_t i) { auto &c = cs[i]; return mc::fmt("%s, secrets %lu..%lu", T[c.op].name.c_str(), (unsigned long)c.lo, (unsigned long)c.hi - 1); }, 200});
}
