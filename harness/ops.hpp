// Alphabet of library operations on caller-owned scratch memory, used for call histories (C19) and schedules (C16).
// Fixtures come from the reference implementation only, so preparing them leaves the library's memory untouched.
#pragma once
#include "gen.hpp"
#include <algorithm>
namespace ops {
using namespace im;
#define DIL(x) PQCLEAN_DILITHIUM2_CLEAN_##x
#define SPH(x) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##x
struct Ctx { // fixed addresses: every operation finds its inputs and leaves its outputs at the same places
    uint8_t *in[4]; uint8_t *out[2]; size_t n0 = 0, n1 = 0; union { unsigned long long ull; size_t sz; } len; int pi = -1; size_t pp = 0; uint8_t pm = 0; int pk = 0; /* one input changed: input, position, mask, kind */ size_t nin[4] = {0, 0, 0, 0};
    static const size_t CAP = 56 * 1024;
    void attach(uint8_t *mem) { for (int i = 0; i < 4; i++) in[i] = mem + i * CAP; for (int i = 0; i < 2; i++) out[i] = mem + (4 + i) * CAP; }
    static size_t need() { return 6 * CAP; }
    const uint8_t *put(int i, const Bytes &b) { memcpy(in[i], b.data(), b.size()); nin[i] = b.size(); if (pi == i && pp < b.size()) change(in[i], b.size()); return in[i]; }
    // kinds 1.. keep sums or folds of the input: two bytes swapped, changed alike, one up and one down, everything rotated or reversed
    void change(uint8_t *x, size_t n) { static const size_t D[] = {1, 4, 8, 32}; if (!pk) { x[pp] ^= pm; return; } size_t q = pp + D[(pk - 1) % 4]; if (pk <= 12 && q >= n) return; if (pk <= 4) std::swap(x[pp], x[q]); else if (pk <= 8) { x[pp] ^= pm; x[q] ^= pm; } else if (pk <= 12) { x[pp]++; x[q]--; } else if (pk == 13) std::rotate(x, x + 1, x + n); else std::reverse(x, x + n); }
    void want(size_t a, size_t b = 0) { n0 = a; n1 = b; memset(out[0], 0xA5, a); memset(out[1], 0xA5, b); len.ull = LENMAGIC; }
    Bytes result(int rc) const { Bytes r(12); memcpy(&r[0], &rc, 4); memcpy(&r[4], &len, 8); r.insert(r.end(), out[0], out[0] + n0); r.insert(r.end(), out[1], out[1] + n1); return r; }
};
struct Op { std::string name; int cost; /*0: below a millisecond 1: milliseconds 2: hundreds*/ std::function<int(Ctx &)> run; };
struct Fix { Key A, B, C, D; std::vector<std::unique_ptr<RefKey>> rk; Bytes m1, m1b, m2, m3, cs1, cs1b, cs2, fs1, fs2, ss1, d0, d1, dm1, e0; Bytes bx_pk, bx_sk, box, sbox, bk, bn, bm; };
inline Fix &fix() { static Fix f; return f; }
inline std::vector<Op> &table() { static std::vector<Op> t; return t; }
inline void tape(const char *t) { env::reset(t); }
inline void build() {
    if (!table().empty()) return; Fix &f = fix();
    Bytes sa = mc::prf("opA", 160), sb = mc::prf("opB", 160), sd = sa; Bytes alt = mc::prf("opD", 64); std::copy(alt.begin(), alt.end(), sd.begin() + 64); // D shares everything with A but SPHINCS+ secret seeds
    f.A = ref_keypair(sa); f.B = ref_keypair(sb); f.D = ref_keypair(sd);
    f.C.pk = cat({sub(f.A.pk, 0, 32), sub(f.B.pk, 32, 1312), sub(f.A.pk, 1344, 64)}); f.C.sk = cat({sub(f.A.sk, 0, 64), sub(f.B.sk, 64, 2560), sub(f.B.sk, 2624, 1312), sub(f.A.sk, 3936, 128)});
    for (Key *k : {&f.A, &f.B, &f.C, &f.D}) f.rk.emplace_back(new RefKey(*k));
    f.m1 = mc::prf("opm1", 32); f.m1b = f.m1; f.m1b[31] ^= 1; f.m2 = mc::prf("opm2", 64); f.m3 = Bytes{7};
    f.cs1 = ref_compact(*f.rk[0], f.m1, mc::prf("opn1", 40)); f.cs1b = ref_compact(*f.rk[2], f.m1b, mc::prf("opn2", 40)); f.cs2 = ref_compact(*f.rk[1], f.m2, mc::prf("opn3", 40));
    f.fs1 = ref_full(*f.rk[0], f.m1, mc::prf("opo1", 32)); f.ss1 = sub(f.fs1, 66 + 32 + 2420, 49856); f.fs2 = ref_full(*f.rk[1], f.m2, mc::prf("opo2", 32));
    f.d0 = f.rk[0]->dsign(f.m2); f.d1 = f.rk[1]->dsign(f.m2); f.dm1 = f.rk[0]->dsign(f.m1); f.e0 = cat({ref::ed::sign(mc::prf("em", 100), sub(f.A.sk, 0, 64)), mc::prf("em", 100)});
    f.bx_sk = mc::prf("bxs", 32); Bytes base(32, 0); base[0] = 9; f.bx_pk = ref::x25519(f.bx_sk, base); f.bk = mc::prf("bk", 32); f.bn = mc::prf("bn", 24); f.bm = cat({Bytes(32, 0), mc::prf("bm", 100)}); f.sbox = ref::secretbox(f.bm, f.bn, f.bk); f.box = ref::secretbox(f.bm, f.bn, ref::box_beforenm(f.bx_pk, f.bx_sk));
    auto &T = table(); auto add = [&](const std::string &n, int c, std::function<int(Ctx &)> r) { T.push_back({n, c, r}); };
    auto kg = [&](const char *n, Bytes seed) { add(n, 1, [seed](Ctx &c) { c.want(PK, SK); auto *s = (uint8_t *)c.put(0, seed); return crypto_sign_dilithium_ed25519_sphincs_keypair_seed(c.out[0], c.out[1], s); }); };
    auto sg = [&](const char *n, int mode, const Bytes *sk, const Bytes *m, const char *tp, int failat = -1, long mlen = -1) { add(n, failat >= 0 || mlen >= 0 ? mode == FULL : mode == FULL ? 2 : 1, [=](Ctx &c) { c.want(smlen_of(mode, m->size())); auto *k = c.put(0, *sk); auto *x = c.put(1, *m); tape(tp); if (failat >= 0) env::rng.fail_after = failat; return c_sign(mode, c.out[0], &c.len.ull, x, mlen >= 0 ? mlen : m->size(), k); }); };
    auto op = [&](const char *n, int mode, Bytes sm, const Bytes *pk) { add(n, sm.size() == smlen_of(mode, sm[1]), [=](Ctx &c) { c.want(64); auto *k = c.put(0, *pk); auto *s = c.put(1, sm); return c_open(mode, c.out[0], &c.len.ull, s, sm.size(), k); }); };
    auto vf = [&](const char *n, int mode, const Bytes *m, Bytes sm, const Bytes *pk) { add(n, 1, [=](Ctx &c) { c.want(0); auto *k = c.put(0, *pk); auto *s = c.put(1, sm); auto *x = c.put(2, *m); return c_verify(mode, x, m->size(), s, sm.size(), k); }); };
    kg("keygen seed A", sa); kg("keygen seed B", sb); kg("keygen seed D (A but SPHINCS+ secret seeds)", sd);
    sg("compact sign A", COMPACT, &f.A.sk, &f.m1, "t1"); sg("compact sign A, last message bit differs", COMPACT, &f.A.sk, &f.m1b, "t1"); sg("compact sign B", COMPACT, &f.B.sk, &f.m2, "t2"); sg("compact sign C (A with B's Dilithium key)", COMPACT, &f.C.sk, &f.m1, "t1");
    sg("compact sign A, randomness fails", COMPACT, &f.A.sk, &f.m1, "t1", 0); sg("compact sign A, randomness fails late", COMPACT, &f.A.sk, &f.m1, "t1", 39); sg("compact sign A, length 65", COMPACT, &f.A.sk, &f.m2, "t1", -1, 65); sg("compact sign A, length 0", COMPACT, &f.A.sk, &f.m2, "t1", -1, 0);
    op("compact open A", COMPACT, f.cs1, &f.A.pk); op("compact open C", COMPACT, f.cs1b, &f.C.pk); op("compact open B", COMPACT, f.cs2, &f.B.pk); op("compact open A's under B", COMPACT, f.cs1, &f.B.pk); op("compact open, Ed25519 part bad", COMPACT, gen::xorb(f.cs1, 40, 1), &f.A.pk); op("compact open, Dilithium part bad", COMPACT, gen::xorb(f.cs1, 900, 1), &f.A.pk); op("compact open, nonce changed", COMPACT, gen::xorb(f.cs1, 2500, 1), &f.A.pk); op("compact open, truncated", COMPACT, sub(f.cs1, 0, 2557), &f.A.pk); op("compact open of a full signature", COMPACT, f.fs1, &f.A.pk);
    vf("compact verify A", COMPACT, &f.m1, f.cs1, &f.A.pk); vf("compact verify B", COMPACT, &f.m2, f.cs2, &f.B.pk); vf("compact verify, other message", COMPACT, &f.m1b, f.cs1, &f.A.pk); vf("compact verify, wrong key", COMPACT, &f.m1, f.cs1, &f.D.pk);
    sg("full sign A", FULL, &f.A.sk, &f.m1, "t3"); sg("full sign D", FULL, &f.D.sk, &f.m1, "t3"); sg("full sign A, randomness fails", FULL, &f.A.sk, &f.m1, "t3", 5);
    op("full open A", FULL, f.fs1, &f.A.pk); op("full open B", FULL, f.fs2, &f.B.pk); op("full open, SPHINCS+ part bad", FULL, gen::xorb(f.fs1, 40000, 1), &f.A.pk); op("full open, message changed", FULL, gen::xorb(f.fs1, 70, 1), &f.A.pk); vf("full verify A", FULL, &f.m1, f.fs1, &f.A.pk); vf("full verify A's under D", FULL, &f.m1, f.fs1, &f.D.pk);
    for (int v = 0; v < 2; v++) add(v ? "Dilithium keygen B" : "Dilithium keygen A", 0, [=](Ctx &c) { c.want(1312, 2560); return DIL(crypto_sign_keypair_seed)(c.out[0], c.out[1], c.put(0, mc::prf(v ? "dkB" : "dkA", 32))); });
    for (int v = 0; v < 4; v++) add(mc::fmt("Dilithium sign %d", v), 1, [=](Ctx &c) { c.want(2420); Bytes m = mc::prf("dsm", v == 0 ? 0 : v == 1 ? 300 : 33); const Key &k = v == 3 ? fix().B : fix().A; return DIL(crypto_sign_signature)(c.out[0], &c.len.sz, c.put(1, m), m.size(), c.put(0, sub(k.sk, 64, 2560))); });
    for (int v = 0; v < 3; v++) add(mc::fmt("Dilithium verify %d", v), 0, [=](Ctx &c) { c.want(0); Bytes s = v == 1 ? fix().d1 : fix().d0; if (v == 2) s[2410] = 200; return DIL(crypto_sign_verify)(c.put(0, s), 2420, c.put(1, fix().m2), 64, c.put(2, sub(v == 1 ? fix().B.pk : fix().A.pk, 32, 1312))); });
    for (int v = 0; v < 2; v++) add(v ? "SPHINCS+ verify bad" : "SPHINCS+ verify", 1, [=](Ctx &c) { c.want(0); Bytes s = fix().ss1; if (v) s[20000] ^= 4; return SPH(crypto_sign_verify)(c.put(0, s), 49856, c.put(1, fix().m1), 32, c.put(2, sub(fix().A.pk, 1344, 64))); });
    for (int v = 0; v < 2; v++) add(v ? "SPHINCS+ keygen B" : "SPHINCS+ keygen A", 1, [=](Ctx &c) { c.want(64, 128); return SPH(crypto_sign_seed_keypair)(c.out[0], c.out[1], c.put(0, mc::prf(v ? "skB" : "skA", 96))); });
    for (int v = 0; v < 2; v++) add(v ? "Ed25519 keygen B" : "Ed25519 keygen A", 1, [=](Ctx &c) { c.want(32, 64); return crypto_sign_keypair_seed(c.out[0], c.out[1], (uint8_t *)c.put(0, mc::prf(v ? "ekB" : "ekA", 32))); });
    for (int v = 0; v < 2; v++) add(v ? "Ed25519 sign B" : "Ed25519 sign A", 1, [=](Ctx &c) { c.want(164); Bytes m = mc::prf("em", 100); return crypto_sign(c.out[0], &c.len.ull, c.put(1, m), 100, c.put(0, sub(v ? fix().B.sk : fix().A.sk, 0, 64))); });
    for (int v = 0; v < 3; v++) add(mc::fmt("Ed25519 open %d", v), 1, [=](Ctx &c) { c.want(164); Bytes s = fix().e0; if (v == 1) s[70] ^= 1; if (v == 2) s[3] ^= 1; int rc = crypto_sign_open(c.out[0], &c.len.ull, c.put(1, s), s.size(), c.put(0, sub(fix().A.pk, 0, 32))); if (rc) memset(c.out[0], 0, 164); return rc; });
    for (int v = 0; v < 2; v++) add(v ? "secretbox open bad" : "secretbox open", 0, [=](Ctx &c) { c.want(132); Bytes b = fix().sbox; if (v) b[60] ^= 1; return crypto_secretbox_open(c.out[0], c.put(0, b), b.size(), c.put(1, fix().bn), c.put(2, fix().bk)); });
    add("secretbox", 0, [](Ctx &c) { c.want(132); return crypto_secretbox(c.out[0], c.put(0, fix().bm), 132, c.put(1, fix().bn), c.put(2, fix().bk)); });
    for (int v = 0; v < 2; v++) add(v ? "box open bad" : "box open", 1, [=](Ctx &c) { c.want(132); Bytes b = fix().box; if (v) b[16] ^= 1; return crypto_box_open(c.out[0], c.put(0, b), b.size(), c.put(1, fix().bn), c.put(2, fix().bx_pk), c.put(3, fix().bx_sk)); });
    add("box", 1, [](Ctx &c) { c.want(132); return crypto_box(c.out[0], c.put(0, fix().bm), 132, c.put(1, fix().bn), c.put(2, fix().bx_pk), c.put(3, fix().bx_sk)); });
    for (int v = 0; v < 2; v++) add(v ? "Curve25519 B" : "Curve25519 A", 1, [=](Ctx &c) { c.want(32); return crypto_scalarmult(c.out[0], c.put(0, mc::prf(v ? "cB" : "cA", 32)), c.put(1, fix().bx_pk)); });
    add("Poly1305", 0, [](Ctx &c) { c.want(16); return crypto_onetimeauth(c.out[0], c.put(0, mc::prf("pm", 77)), 77, c.put(1, fix().bk)); });
    for (int v = 0; v < 2; v++) add(v ? "SHA-512 of 200" : "SHA-512 of 3", 0, [=](Ctx &c) { size_t n = v ? 200 : 3; c.want(64); return crypto_hash(c.out[0], c.put(0, mc::prf("hm", n)), n); });
    add("SHA3-256", 0, [](Ctx &c) { c.want(32); sha3_256(c.out[0], c.put(0, mc::prf("s3", 150)), 150); return 0; }); add("SHA3-512", 0, [](Ctx &c) { c.want(64); sha3_512(c.out[0], c.put(0, mc::prf("s3", 150)), 150); return 0; }); add("SHAKE-128", 0, [](Ctx &c) { c.want(300); shake128(c.out[0], 300, c.put(0, mc::prf("s3", 200)), 200); return 0; });
    add("SHAKE-256 incremental", 0, [](Ctx &c) { c.want(300); shake256incctx s; shake256_inc_init(&s); shake256_inc_absorb(&s, c.put(0, mc::prf("si", 200)), 200); shake256_inc_finalize(&s); shake256_inc_squeeze(c.out[0], 300, &s); shake256_inc_ctx_release(&s); return 0; });
    for (int v = 0; v < 2; v++) add(v ? "seed expansion B" : "seed expansion A", 0, [=](Ctx &c) { c.want(160); return crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(c.put(0, mc::prf(v ? "xB" : "xA", 96)), c.out[0]); });
    for (int v = 0; v < 3; v++) add(mc::fmt("SHAKE seed expander %d", v), 0, [=](Ctx &c) { c.want(500); return seedexpander_wrapper(c.put(0, mc::prf("xw", 64)), v == 1 ? 31 : v == 2 ? 33 : 64, c.out[0], 500); });
    add("random bytes", 0, [](Ctx &c) { c.want(100); tape("t5"); return randombytes(c.out[0], 100); }); add("random bytes, source fails", 0, [](Ctx &c) { c.want(0); tape("t5"); env::rng.fail_after = 10; return randombytes(c.out[1], 100) ? 1 : 0; });
    add("random key generation", 1, [](Ctx &c) { c.want(PK, SK); tape("t6"); return crypto_sign_dilithium_ed25519_sphincs_keypair(c.out[0], c.out[1]); }); add("random key generation, source fails", 0, [](Ctx &c) { c.want(PK, SK); tape("t6"); env::rng.fail_after = 100; return crypto_sign_dilithium_ed25519_sphincs_keypair(c.out[0], c.out[1]); });
    add("Dilithium stand-alone verify", 0, [](Ctx &c) { c.want(0); Bytes s = fix().dm1; return crypto_verify_dilithium(c.put(0, fix().m1), 32, c.put(1, s), 2420, c.put(2, sub(fix().A.pk, 32, 1312))); });
    // the remaining public functions: incremental hashing with clones, combined signing interfaces, streams, and the refusals of malformed arguments
#define S3INC(bits, outn) add("SHA3-" #bits " incremental with a clone", 0, [](Ctx &c) { c.want(outn, outn); sha3_##bits##incctx s, d; const uint8_t *x = c.put(0, mc::prf("s3i", 250)); sha3_##bits##_inc_init(&s); sha3_##bits##_inc_absorb(&s, x, 7); sha3_##bits##_inc_absorb(&s, x + 7, 150); sha3_##bits##_inc_ctx_clone(&d, &s); sha3_##bits##_inc_absorb(&s, x + 157, 93); sha3_##bits##_inc_finalize(c.out[0], &s); sha3_##bits##_inc_finalize(c.out[1], &d); return 0; });
    S3INC(256, 32) S3INC(384, 48) S3INC(512, 64)
    add("SHA3-384", 0, [](Ctx &c) { c.want(48); sha3_384(c.out[0], c.put(0, mc::prf("s3", 150)), 150); return 0; });
#define SHKC(bits, rate) add("SHAKE-" #bits " blocks with a clone", 0, [](Ctx &c) { c.want(2 * rate, rate); shake##bits##ctx s, d; shake##bits##_absorb(&s, c.put(0, mc::prf("sb", 180)), 180); shake##bits##_squeezeblocks(c.out[0], 1, &s); shake##bits##_ctx_clone(&d, &s); shake##bits##_squeezeblocks(c.out[0] + rate, 1, &s); shake##bits##_squeezeblocks(c.out[1], 1, &d); shake##bits##_ctx_release(&s); shake##bits##_ctx_release(&d); return 0; }); \
    add("SHAKE-" #bits " incremental with a clone", 0, [](Ctx &c) { c.want(200, 200); shake##bits##incctx s, d; const uint8_t *x = c.put(0, mc::prf("sj", 300)); shake##bits##_inc_init(&s); shake##bits##_inc_absorb(&s, x, 190); shake##bits##_inc_ctx_clone(&d, &s); shake##bits##_inc_absorb(&s, x + 190, 110); shake##bits##_inc_finalize(&s); shake##bits##_inc_finalize(&d); shake##bits##_inc_squeeze(c.out[0], 200, &s); shake##bits##_inc_squeeze(c.out[1], 200, &d); shake##bits##_inc_ctx_release(&s); shake##bits##_inc_ctx_release(&d); return 0; });
    SHKC(128, 168) SHKC(256, 136)
    add("Dilithium combined sign", 1, [](Ctx &c) { c.want(2420 + 64); return DIL(crypto_sign)(c.out[0], &c.len.sz, c.put(1, fix().m2), 64, c.put(0, sub(fix().A.sk, 64, 2560))); });
    for (int v = 0; v < 3; v++) add(v == 2 ? "Dilithium combined open, hints out of order" : v ? "Dilithium combined open bad" : "Dilithium combined open", 0, [=](Ctx &c) { c.want(2420 + 64); Bytes s = cat({fix().d0, fix().m2}); if (v == 1) s[2450] ^= 1; if (v == 2) std::swap(s[2336], s[2337]); int rc = DIL(crypto_sign_open)(c.out[0], &c.len.sz, c.put(0, s), s.size(), c.put(1, sub(fix().A.pk, 32, 1312))); if (rc) memset(c.out[0], 0, 2484); return rc; });
    for (int v = 0; v < 2; v++) add(v ? "SPHINCS+ combined open bad" : "SPHINCS+ combined open", 1, [=](Ctx &c) { c.want(49856 + 32); Bytes s = cat({fix().ss1, fix().m1}); if (v) s[49856] ^= 1; int rc = SPH(crypto_sign_open)(c.out[0], &c.len.sz, c.put(0, s), s.size(), c.put(1, sub(fix().A.pk, 1344, 64))); if (rc) memset(c.out[0], 0, 49888); return rc; });
    add("SPHINCS+ combined sign", 2, [](Ctx &c) { c.want(49856 + 32); tape("t7"); return SPH(crypto_sign)(c.out[0], &c.len.sz, c.put(1, fix().m1), 32, c.put(0, sub(fix().A.sk, 3936, 128))); });
    for (int v = 0; v < 2; v++) add(v ? "Poly1305 verify bad" : "Poly1305 verify", 0, [=](Ctx &c) { c.want(0); Bytes m = mc::prf("pm", 77), t = ref::poly1305(m, fix().bk); if (v) t[15] ^= 0x80; return crypto_onetimeauth_verify(c.put(0, t), c.put(1, m), 77, c.put(2, fix().bk)); });
    add("XSalsa20 stream and xor", 0, [](Ctx &c) { c.want(300, 300); Bytes m = mc::prf("xm", 300); auto *n = c.put(1, fix().bn); auto *k = c.put(2, fix().bk); int r = crypto_stream(c.out[0], 300, n, k); return r | crypto_stream_xor(c.out[1], c.put(0, m), 300, n, k); });
    add("Salsa20 stream and xor", 0, [](Ctx &c) { c.want(300, 300); Bytes m = mc::prf("xm", 300); auto *n = c.put(1, fix().bn); auto *k = c.put(2, fix().bk); int r = crypto_stream_salsa20(c.out[0], 300, n, k); return r | crypto_stream_salsa20_xor(c.out[1], c.put(0, m), 300, n, k); });
    add("box shared key, then boxing with it", 1, [](Ctx &c) { c.want(32, 132); int r = crypto_box_beforenm(c.out[0], c.put(2, fix().bx_pk), c.put(3, fix().bx_sk)); return r | crypto_box_afternm(c.out[1], c.put(0, fix().bm), 132, c.put(1, fix().bn), c.out[0]); });
    add("box key pair", 1, [](Ctx &c) { c.want(32, 32); tape("t8"); return crypto_box_keypair(c.out[0], c.out[1]); });
    for (int mode : {COMPACT, FULL}) { Bytes sm = mode == COMPACT ? f.cs1 : f.fs1; std::string M = mname(mode);
        add(M + " open, identifier wrong", 0, [=](Ctx &c) { c.want(64); Bytes s = sm; s[0] ^= 4; auto *k = c.put(0, fix().A.pk); return c_open(mode, c.out[0], &c.len.ull, c.put(1, s), s.size(), k); });
        add(M + " open, length byte wrong", 0, [=](Ctx &c) { c.want(64); Bytes s = sm; s[1] = 33; auto *k = c.put(0, fix().A.pk); return c_open(mode, c.out[0], &c.len.ull, c.put(1, s), s.size(), k); });
        add(M + " calls without a key", 0, [=](Ctx &c) { c.want(64); auto *s = c.put(1, sm); auto *m = c.put(2, fix().m1); int a = c_sign(mode, c.out[0], &c.len.ull, m, 32, nullptr), b = c_open(mode, c.out[0], &c.len.ull, s, sm.size(), nullptr), d = c_verify(mode, m, 32, s, sm.size(), nullptr); return (a & 255) | (b & 255) << 8 | (d & 255) << 16; });
        add(M + " verify, length differs", 1, [=](Ctx &c) { c.want(0); auto *k = c.put(0, fix().A.pk); auto *m = c.put(2, fix().m2); return c_verify(mode, m, 33, c.put(1, sm), sm.size(), k); }); }
}
}
