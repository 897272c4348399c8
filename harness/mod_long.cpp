// Explorers of very long inputs and outputs: lengths beyond 2^29, 2^30 and 2^32. The buffers are one megabyte of memory
// mapped again and again, so they cost no space; expected values come from the models or from an external implementation.
#include "gen.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace im; using mc::fmt; using mc::hex;
namespace {
const size_t P = 1 << 20; const uint64_t N32 = (1ULL << 32) + 5;
struct Periodic { // n bytes, byte i is the window's byte i mod P; nothing is mapped around it
    uint8_t *p; size_t n, len;
    explicit Periodic(size_t n_, bool fill = true) : n(n_) {
        int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, P)) mc::fail("harness: no memory file"); len = (n / P + 1) * P;
        uint8_t *b = (uint8_t *)mmap(nullptr, len + 2 * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = b + P;
        for (size_t o = 0; o < len; o += P) if (mmap(p + o, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) mc::fail("harness: mapping failed");
        close(fd); for (size_t i = 0; i < P; i++) p[i] = fill ? (uint8_t)(i * 131 + (i >> 8) * 29 + (i >> 16) * 3 + 7) : 0xA5;
    }
    ~Periodic() { munmap(p - P, len + 2 * P); }
    Bytes window() const { return Bytes(p, p + P); }
};
void absorb(ref::Sponge &s, const Periodic &w) { for (size_t o = 0; o < w.n; o += P) s.absorb(w.p, std::min(P, w.n - o)); }
const char *HEX[10] = {"48f6fc49baba5b25a46e489c23a31329dbf39f5f82127a32b12fb48588f90530", "4261822266170fb22cec1d03ac5f9e93766bdfb50774516853cd43d222a918c9", "8a49d2d7b06d5f2b20cd24e40b0fd85102507fbe490d4272e63033111a8fa32f",
    "ea376e3a17968abc8a501d885f254457bad3e6e08bdc941c59503cef31275b9b2a93bb0a1f1956e91abc084819f9490b", "7717a715b9a115afba4be56c34ed52cdaed6cc33304ba5425d6edc6c981a58641d187e491545eb15f3406fea3f2759b5d1c65dcc566dbd452b1f53d363582782",
    "529e19b51e423c161dfe270b439f66be2bed099dd8c3234a523677716069fb98", "fee782f7e785f67b894fb01472410def1fffd37682c6ed9baa54d82edc194eaa"};
const char *HN[5] = {"SHAKE-128", "SHAKE-256", "SHA3-256", "SHA3-384", "SHA3-512"};
void want(const Bytes &b, const char *h, const std::string &what) { if (hex(b, 64) != h) mc::fail("%s is wrong", what.c_str()); mc::state(mc::hash(b)); mc::transition(); mc::trace(); }
const char *SALSA = "salsa20";
}
// quick: the 2^32 boundary of each interface once; SHAKE squeezing and the expander included
static mc::Reg l1({"l_hash", "one-shot and incremental SHA3-256/384/512 and SHAKE-128/256 of 2^32+5 bytes in one piece, SHAKE outputs of 2^32+5 bytes in one piece, one-shot and incremental",
    [](int) { return 14ull; },
    [](uint64_t i) {
        if (i >= 10) { int a = (i - 10) % 2; bool inc = i >= 12; const uint8_t in[] = {'l', 'o', 'n', 'g', ' ', 'o', 'u', 't', 'p', 'u', 't'}; Periodic o(N32, false);
            if (!inc) (a ? shake256 : shake128)(o.p, N32, in, 11); else if (a) { shake256incctx c; shake256_inc_init(&c); shake256_inc_absorb(&c, in, 11); shake256_inc_finalize(&c); shake256_inc_squeeze(o.p, N32, &c); shake256_inc_ctx_release(&c); } else { shake128incctx c; shake128_inc_init(&c); shake128_inc_absorb(&c, in, 11); shake128_inc_finalize(&c); shake128_inc_squeeze(o.p, N32, &c); shake128_inc_ctx_release(&c); }
            want(ref::sha3(o.window(), 256), HEX[5 + a], fmt("%s%s output of 2^32+5 bytes", inc ? "incremental " : "", HN[a])); return; }
        int a = i % 5; bool inc = i >= 5; size_t on = a < 3 ? 32 : a == 3 ? 48 : 64; Bytes o(on); Periodic m(N32);
        if (!inc) switch (a) { case 0: shake128(o.data(), 32, m.p, N32); break; case 1: shake256(o.data(), 32, m.p, N32); break; case 2: sha3_256(o.data(), m.p, N32); break; case 3: sha3_384(o.data(), m.p, N32); break; default: sha3_512(o.data(), m.p, N32); }
        else switch (a) {
            case 0: { shake128incctx c; shake128_inc_init(&c); shake128_inc_absorb(&c, m.p, N32); shake128_inc_finalize(&c); shake128_inc_squeeze(o.data(), 32, &c); shake128_inc_ctx_release(&c); break; }
            case 1: { shake256incctx c; shake256_inc_init(&c); shake256_inc_absorb(&c, m.p, N32); shake256_inc_finalize(&c); shake256_inc_squeeze(o.data(), 32, &c); shake256_inc_ctx_release(&c); break; }
            case 2: { sha3_256incctx c; sha3_256_inc_init(&c); sha3_256_inc_absorb(&c, m.p, N32); sha3_256_inc_finalize(o.data(), &c); break; }
            case 3: { sha3_384incctx c; sha3_384_inc_init(&c); sha3_384_inc_absorb(&c, m.p, N32); sha3_384_inc_finalize(o.data(), &c); break; }
            default: { sha3_512incctx c; sha3_512_inc_init(&c); sha3_512_inc_absorb(&c, m.p, N32); sha3_512_inc_finalize(o.data(), &c); } }
        want(o, HEX[a], fmt("%s%s of 2^32+5 bytes", inc ? "incremental " : "", HN[a])); },
    [](uint64_t i) { return fmt("long hash case %lu", (unsigned long)i); }, 600});
static mc::Reg l2({"l_expander", "seed expander and its wrapper: one request of 2^32+5 bytes, and requests that sum to it",
    [](int) { return 3ull; },
    [](uint64_t i) { uint8_t in[32]; for (int j = 0; j < 32; j++) in[j] = j * 5 + 1; Periodic o(N32, false);
        if (i == 0) { if (seedexpander_wrapper(in, 32, o.p, N32)) mc::fail("wrapper refused an output of 2^32+5 bytes"); }
        else { seedexpander_state s; seedexpander_init(&s, in, 32); if (i == 1) seedexpander(&s, o.p, N32); else { size_t k = (1u << 31) + 80; seedexpander(&s, o.p, k); seedexpander(&s, o.p + k, N32 - k); } seedexpander_release(&s); }
        want(ref::sha3(o.window(), 256), "bedb4381dea20fbeb7076677bf692b7dc06dd8688b3b8bc425348005efe7952a", fmt("seed expansion of 2^32+5 bytes (form %d)", (int)i)); },
    [](uint64_t i) { return fmt("long expansion form %lu", (unsigned long)i); }, 600});
static mc::Reg l3({"l_nacl", "SHA-512 of 2^29-1 and 2^29+3 bytes (thorough: 2^32+3), Salsa20/XSalsa20 streams across block 2^24 (2^30 bytes), Poly1305 of 2^32+5 bytes (thorough)",
    [](int t) { return t ? 9ull : 6ull; },
    [](uint64_t i) {
        if (i < 2 || i == 6) { uint64_t n = i == 6 ? (1ULL << 32) + 3 : (1ULL << 29) + (i ? 3 : -1); Periodic m(n); Bytes o(64); crypto_hash(o.data(), m.p, n);
            const char *H[] = {"6182f1360e1d8f63bb6cf9d4966de4737bc80e094c470fa0b6f5ccf1d486bc3d55596bb2edafab6ae5475ff2843df2140d0ed8f9437968332d58e0514dac9ede", "4a9b114f0ba9b6f211dc479f3281dd08cca80870c8e2553436c4c6a6cd69fe81eeae66d963b14eb7e3ccab9b5cb55ab3dba211b7921f6ddb4b0be7c9f22ecbde", "87eccd1eb88983131cdd9bd5f52d43823d157af968593a31be74fbf54ff5310012d4777a808cf4134a28b0a2b967466c7d88ad171d0c8bdd26a6b3f0ffbf0ad3"};
            want(o, H[i == 6 ? 2 : i], fmt("SHA-512 of %llu bytes", (unsigned long long)n)); }
        else if (i < 6) { bool x = i & 1, in = i >= 4; uint64_t n = (1ULL << 30) + 200; Bytes k = mc::prf("lk", 32), nn = mc::prf("ln", 24), kk = x ? ref::core_hsalsa20(sub(nn, 0, 16), k, ref::sigma()) : k, n8 = sub(nn, x ? 16 : 0, 8);
            Periodic o(n, false), m(in ? n : 16); if (x && in) crypto_stream_xsalsa20_tweet_xor(o.p, m.p, n, nn.data(), k.data()); else if (x) crypto_stream_xsalsa20_tweet(o.p, n, nn.data(), k.data()); else if (in) crypto_stream_salsa20_tweet_xor(o.p, m.p, n, nn.data(), k.data()); else crypto_stream_salsa20_tweet(o.p, n, nn.data(), k.data());
            uint64_t first = n - P; for (uint64_t b = first / 64; b * 64 < n; b++) { Bytes q = n8; for (int j = 0; j < 8; j++) q.push_back((uint8_t)(b >> (8 * j))); Bytes s = ref::core_salsa20(q, kk, ref::sigma()); for (int j = 0; j < 64; j++) { uint64_t at = b * 64 + j; if (at < first || at >= n) continue; uint8_t e = s[j] ^ (in ? m.p[at % P] : 0); if (o.p[at % P] != e) mc::fail("%s%s stream byte %llu of %llu is wrong", x ? "x" : "", SALSA, (unsigned long long)at, (unsigned long long)n); } }
            mc::state(mc::hash(o.window())); mc::transition(); mc::trace(); }
        else { Periodic m(N32); Bytes key(32), o(16); for (int j = 0; j < 32; j++) key[j] = j * 7 + 3; if (i == 7) crypto_onetimeauth(o.data(), m.p, N32, key.data()); else { const char *t = "9638225812e96e6d4e7b33e92c328d22"; for (int j = 0; j < 16; j++) { unsigned v; sscanf(t + 2 * j, "%2x", &v); o[j] = v; } if (crypto_onetimeauth_verify(o.data(), m.p, N32, key.data())) mc::fail("the genuine authenticator of 2^32+5 bytes is rejected"); o[15] ^= 128; if (!crypto_onetimeauth_verify(o.data(), m.p, N32, key.data())) mc::fail("a false authenticator of 2^32+5 bytes is accepted"); o[15] ^= 128; }
            want(o, "9638225812e96e6d4e7b33e92c328d22", "Poly1305 of 2^32+5 bytes"); } },
    [](uint64_t i) { return fmt("long NaCl case %lu", (unsigned long)i); }, 900});
static mc::Reg l4({"l_dil", "Dilithium: detached signature over a message of 2^32+5 bytes, bit-exact; verified; rejected for the message cut by 2^32 and for one changed byte",
    [](int) { return 1ull; },
    [](uint64_t) { const RefKey &k = rkey(0); Periodic m(N32); Bytes sk = sub(k.k.sk, 64, 2560 - 32), pk = sub(k.k.pk, 32, 1312); sk = sub(k.k.sk, 64, 2560);
        ref::Sponge s(136, 0x1F); s.absorb(k.ds.u.tr); absorb(s, m); Bytes mu = s.squeeze(64), w; k.ds.sign_mu(mu, w); mc::GBuf g(2420); size_t sl = 0;
        if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(g.p, &sl, m.p, N32, sk.data()) || sl != 2420) mc::fail("signing 2^32+5 bytes failed"); g.check("signature"); if (g.bytes() != w) mc::fail("the signature of a message of 2^32+5 bytes differs from the specified one"); mc::transition();
        if (PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(g.p, 2420, m.p, N32, pk.data())) mc::fail("the genuine signature of a message of 2^32+5 bytes is rejected");
        if (!PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(g.p, 2420, m.p, 5, pk.data())) mc::fail("the signature of a message of 2^32+5 bytes is accepted for its first 5 bytes"); m.p[77] ^= 1;
        if (!PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(g.p, 2420, m.p, N32, pk.data())) mc::fail("the signature of a message of 2^32+5 bytes is accepted for another message"); mc::transition(3); mc::trace(); mc::state(mc::hash(w)); },
    [](uint64_t) { return std::string("Dilithium, 2^32+5 bytes"); }, 900});
static mc::Reg l5({"l_sph", "SPHINCS+: detached signature over a message of 2^32+5 bytes, bit-exact; verified; rejected for the message cut by 2^32",
    [](int) { return 1ull; },
    [](uint64_t) { const Key &k = key(0); Periodic m(N32); Bytes sk = sub(k.sk, 3936, 128), pk = sub(k.pk, 1344, 64); env::reset("lsph"); Bytes opt = env::expect("lsph", 0, 32);
        ref::Sponge s(136, 0x1F); s.absorb(sub(sk, 32, 32)); s.absorb(opt); absorb(s, m); Bytes R = s.squeeze(32); ref::Sponge t(136, 0x1F); t.absorb(R); t.absorb(pk); absorb(t, m); Bytes w = ref::sph::sign_digest(sk, R, ref::sph::digest_of(t.squeeze(49)));
        mc::GBuf g(49856); size_t sl = 0; if (PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(g.p, &sl, m.p, N32, sk.data()) || sl != 49856) mc::fail("signing 2^32+5 bytes failed"); g.check("signature"); if (g.bytes() != w) mc::fail("the SPHINCS+ signature of a message of 2^32+5 bytes differs from the specified one"); mc::transition();
        if (PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(g.p, 49856, m.p, N32, pk.data())) mc::fail("the genuine signature of a message of 2^32+5 bytes is rejected");
        if (!PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(g.p, 49856, m.p, 5, pk.data())) mc::fail("the signature of a message of 2^32+5 bytes is accepted for its first 5 bytes"); mc::transition(2); mc::trace(); mc::state(mc::hash(w)); },
    [](uint64_t) { return std::string("SPHINCS+, 2^32+5 bytes"); }, 900});
static mc::Reg l6({"l_ed", "Ed25519: signature over a message of 2^29+3 bytes (the hashed bit length passes 2^32), bit-exact, opened, and rejected when one byte of the message is changed",
    [](int) { return 1ull; },
    [](uint64_t) { const RefKey &k = rkey(0); size_t n = (1u << 29) + 3; Bytes msg(n); for (size_t i = 0; i < n; i++) msg[i] = (uint8_t)(i * 37 + (i >> 13)); Bytes w = ref::ed::sign(msg, k.ed_sk), sm(n + 64); unsigned long long l = 0;
        if (crypto_sign_ed25519_tweet(sm.data(), &l, msg.data(), n, k.ed_sk.data()) || l != n + 64) mc::fail("signing 2^29+3 bytes failed"); if (sub(sm, 0, 64) != w || memcmp(sm.data() + 64, msg.data(), n)) mc::fail("the signed message of 2^29+3 bytes differs from the specified one"); mc::transition();
        Bytes o(n + 64); if (crypto_sign_ed25519_tweet_open(o.data(), &l, sm.data(), n + 64, k.ed_pk.data()) || l != n || memcmp(o.data(), msg.data(), n)) mc::fail("the genuine signed message of 2^29+3 bytes does not open"); sm[64 + n - 1] ^= 1;
        if (!crypto_sign_ed25519_tweet_open(o.data(), &l, sm.data(), n + 64, k.ed_pk.data())) mc::fail("an altered message of 2^29+3 bytes opens"); mc::transition(2); mc::trace(); mc::state(mc::hash(w)); },
    [](uint64_t) { return std::string("Ed25519, 2^29+3 bytes"); }, 900});
