// Explorers of the symmetric primitives: SHA3/SHAKE (C11), SHAKE seed expander (C10), NaCl (C15).
#include "gen.hpp"
using namespace im; using namespace gen; using mc::fmt; using mc::hex;

// ---------------------------------------------------------------- C11: one uniform view of the ten hash interfaces
enum Alg { SHAKE128 = 0, SHAKE256, SHA3_256, SHA3_384, SHA3_512, NALG };
static const unsigned RATE[NALG] = {168, 136, 136, 104, 72}; static const size_t OUT[NALG] = {0, 0, 32, 48, 64};
static const char *aname(int a) { static const char *n[] = {"SHAKE-128", "SHAKE-256", "SHA3-256", "SHA3-384", "SHA3-512"}; return n[a]; }
static bool xof(int a) { return a <= SHAKE256; }
static Bytes ref_hash(int a, const Bytes &in, size_t n) { switch (a) { case SHAKE128: return ref::shake128(in, n); case SHAKE256: return ref::shake256(in, n); default: return ref::sha3(in, (unsigned)OUT[a] * 8); } }
union Ctx { shake128incctx s128; shake256incctx s256; sha3_256incctx h256; sha3_384incctx h384; sha3_512incctx h512; };
static void c_init(int a, Ctx &c) { switch (a) { case 0: shake128_inc_init(&c.s128); break; case 1: shake256_inc_init(&c.s256); break; case 2: sha3_256_inc_init(&c.h256); break; case 3: sha3_384_inc_init(&c.h384); break; default: sha3_512_inc_init(&c.h512); } mc::transition(); }
static void c_absorb(int a, Ctx &c, const uint8_t *p, size_t n) { switch (a) { case 0: shake128_inc_absorb(&c.s128, p, n); break; case 1: shake256_inc_absorb(&c.s256, p, n); break; case 2: sha3_256_inc_absorb(&c.h256, p, n); break; case 3: sha3_384_inc_absorb(&c.h384, p, n); break; default: sha3_512_inc_absorb(&c.h512, p, n); } mc::transition(); }
static void c_clone(int a, Ctx &d, const Ctx &c) { switch (a) { case 0: shake128_inc_ctx_clone(&d.s128, &c.s128); break; case 1: shake256_inc_ctx_clone(&d.s256, &c.s256); break; case 2: sha3_256_inc_ctx_clone(&d.h256, &c.h256); break; case 3: sha3_384_inc_ctx_clone(&d.h384, &c.h384); break; default: sha3_512_inc_ctx_clone(&d.h512, &c.h512); } mc::transition(); }
static void c_release(int a, Ctx &c) { switch (a) { case 0: shake128_inc_ctx_release(&c.s128); break; case 1: shake256_inc_ctx_release(&c.s256); break; case 2: sha3_256_inc_ctx_release(&c.h256); break; case 3: sha3_384_inc_ctx_release(&c.h384); break; default: sha3_512_inc_ctx_release(&c.h512); } mc::transition(); }
static void c_fin(int a, Ctx &c) { if (a == 0) shake128_inc_finalize(&c.s128); else shake256_inc_finalize(&c.s256); mc::transition(); }
static void c_squeeze(int a, Ctx &c, uint8_t *o, size_t n) { if (a == 0) shake128_inc_squeeze(o, n, &c.s128); else shake256_inc_squeeze(o, n, &c.s256); mc::transition(); }
static void c_finhash(int a, Ctx &c, uint8_t *o) { switch (a) { case 2: sha3_256_inc_finalize(o, &c.h256); break; case 3: sha3_384_inc_finalize(o, &c.h384); break; default: sha3_512_inc_finalize(o, &c.h512); } mc::transition(); }
static void c_oneshot(int a, uint8_t *o, size_t n, const uint8_t *p, size_t l) { switch (a) { case 0: shake128(o, n, p, l); break; case 1: shake256(o, n, p, l); break; case 2: sha3_256(o, p, l); break; case 3: sha3_384(o, p, l); break; default: sha3_512(o, p, l); } }
static Bytes one(int a, const Bytes &in, size_t n, bool left) { mc::GBuf i(in, left), o(n, left); i.readonly(); Call c; c_oneshot(a, o.p, n, i.p, in.size()); c.done(aname(a)); o.check(aname(a)); Bytes r = o.bytes(); mc::state(mc::hash(in, mc::mix(a, n))); return r; }
static mc::Reg s1({"k_oneshot", "one-shot SHA3-256/384/512 and SHAKE-128/256: every input length 0..4*rate+9 x 4 content classes (both buffer placements), every SHAKE output length 0..3*rate+9, plus lengths around every power of two to 2^20",
    [](int) { return (uint64_t)NALG * 700 + 2ull * 530 + NALG * gen::NBIG; },
    [](uint64_t i) {
        if (i < (uint64_t)NALG * 700) { int a = i % NALG; size_t n = i / NALG; if (n > 4 * RATE[a] + 9) return; size_t out = xof(a) ? 64 : OUT[a]; for (int c = 0; c < 4; c++) { Bytes in = content(c, n, "k"); if (one(a, in, out, c & 1) != ref_hash(a, in, out)) mc::fail("%s of %zu bytes (content class %d) is wrong", aname(a), n, c); } mc::outcome("input length"); }
        else if (i < (uint64_t)NALG * 700 + 1060) { i -= NALG * 700; int a = i % 2; size_t n = i / 2; if (n > 3 * RATE[a] + 9) return; for (size_t l : {(size_t)0, (size_t)1, (size_t)33, (size_t)RATE[a] - 1, (size_t)RATE[a]}) { Bytes in = content(0, l, "ko"); if (one(a, in, n, l & 1) != ref_hash(a, in, n)) mc::fail("%s with %zu output bytes (input %zu bytes) is wrong", aname(a), n, l); } mc::outcome("output length"); }
        else { i -= NALG * 700 + 1060; int a = i % NALG; size_t n = gen::big(i / NALG); size_t out = xof(a) ? n : OUT[a]; Bytes in = mc::prf("big", n); if (one(a, in, out, false) != ref_hash(a, in, out)) mc::fail("%s of %zu bytes is wrong", aname(a), n); mc::outcome("large"); }
        mc::trace(); },
    [](uint64_t i) { return fmt("one-shot hash case %lu", (unsigned long)i); }});
// bounded-exhaustive sequences of absorb pieces and squeeze pieces
static const int NA = 8, NS = 6;
static size_t apiece(int a, int k) { unsigned r = RATE[a]; size_t v[NA] = {0, 1, 8, r - 1, r, r + 1, r / 2, 2 * r}; return v[k]; }
static size_t spiece(int a, int k) { unsigned r = RATE[a]; size_t v[NS] = {0, 1, r - 1, r, r + 1, 9}; return v[k]; }
static void run_seq(int a, const std::vector<size_t> &ab, const std::vector<size_t> &sq, int clone_at) {
    size_t tot = 0, ts = 0; for (auto v : ab) tot += v; for (auto v : sq) ts += v; Bytes in = mc::prf("seq", tot), alt = mc::prf("alt", 300); size_t outn = xof(a) ? ts : OUT[a]; Bytes want = ref_hash(a, in, outn);
    Ctx c, d; bool cl = false; int pos = 0; Bytes in2; // what the clone absorbed when it takes a different continuation
    Call call; c_init(a, c); size_t o = 0; ref::Sponge *ms = nullptr; ref::Sponge model(RATE[a], xof(a) ? 0x1F : 0x06); uint64_t st = mc::mix(a, 1);
    auto maybe = [&]() { if (pos++ == clone_at) { c_clone(a, d, c); cl = true; ms = new ref::Sponge(model); } };
    for (auto n : ab) { maybe(); mc::GBuf g(sub(in, o, n), n & 1); g.readonly(); c_absorb(a, c, g.p, n); model.absorb(sub(in, o, n)); o += n; st = mc::mix(st, model.pos); mc::state(mc::mix(st, o)); }
    bool clone_sq = false; maybe();
    if (xof(a)) {
        c_fin(a, c); model.finish(); size_t so = 0;
        for (auto n : sq) { if (pos == clone_at) clone_sq = true; maybe(); mc::GBuf g(n, n & 1); c_squeeze(a, c, g.p, n); g.check("squeeze"); if (g.bytes() != sub(want, so, n)) mc::fail("%s: squeeze of %zu bytes at offset %zu after absorbing %zu bytes in %zu pieces is wrong", aname(a), n, so, tot, ab.size()); model.squeeze(n); so += n; mc::state(mc::mix(mc::mix(st, so), 77)); }
        if (cl) { Bytes more; if (!clone_sq) { mc::GBuf g(alt); g.readonly(); c_absorb(a, d, g.p, alt.size()); ms->absorb(alt); c_fin(a, d); ms->finish(); } for (size_t n : {(size_t)RATE[a] + 3, (size_t)1}) { mc::GBuf g(n); c_squeeze(a, d, g.p, n); g.check("clone squeeze"); if (g.bytes() != ms->squeeze(n)) mc::fail("%s: clone taken at step %d does not continue independently", aname(a), clone_at); }
            mc::GBuf g(40); c_squeeze(a, c, g.p, 40); if (g.bytes() != model.squeeze(40)) mc::fail("%s: original disturbed by its clone (step %d)", aname(a), clone_at); c_release(a, d); }
        c_release(a, c);
    } else {
        mc::GBuf g(OUT[a]); c_finhash(a, c, g.p); g.check("digest"); if (g.bytes() != want) mc::fail("%s of %zu bytes absorbed in %zu pieces is wrong", aname(a), tot, ab.size());
        if (cl) { mc::GBuf x(alt); x.readonly(); c_absorb(a, d, x.p, alt.size()); ms->absorb(alt); mc::GBuf g2(OUT[a]); c_finhash(a, d, g2.p); if (g2.bytes() != ms->squeeze(OUT[a])) mc::fail("%s: clone taken at step %d does not continue independently", aname(a), clone_at); } // finalizing releases a SHA3 context
    }
    delete ms; call.done(aname(a)); mc::trace(); mc::outcome(cl ? "with clone" : "no clone");
}
struct Shift { explicit Shift(int d) { mc::shift = d; } ~Shift() { mc::shift = 0; } };
static mc::Reg s1b({"k_align", "one-shot hashing with input and output at every address modulo 8 (thorough: modulo 16): every input length 0..2*rate+9",
    [](int) { return (uint64_t)NALG * 350; },
    [](uint64_t i) { int a = i % NALG; size_t n = i / NALG; if (n > 2 * RATE[a] + 9) return; size_t out = xof(a) ? 1 + n % 200 : OUT[a]; Bytes in = content(0, n, "ka"), want = ref_hash(a, in, out); for (int d = 1; d < (mc::tier ? 16 : 8); d++) { Shift s(d); if (one(a, in, out, false) != want) mc::fail("%s of %zu bytes at an address %d modulo 16 is wrong", aname(a), n, d); } mc::trace(); },
    [](uint64_t i) { return fmt("%s, %lu bytes at every address modulo 8", aname(i % NALG), (unsigned long)(i / NALG)); }});
static mc::Reg s2({"k_seq", "incremental hashing: every sequence of up to 4 absorbed pieces from 8 sizes (incl. zero and rate boundaries) x squeeze sequences from 6 sizes, for all five functions",
    [](int t) { return (uint64_t)NALG * 4096 * (t ? 36 : 12); },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG); std::vector<size_t> ab, sq; for (int k = 0; k < 4; k++) ab.push_back(apiece(a, x.take(NA))); uint64_t s = mc::tier ? x.i : (i * 2654435761u >> 7) % 36; if (!xof(a) && x.i) return; if (xof(a)) { sq.push_back(spiece(a, s % 6)); sq.push_back(spiece(a, s / 6)); sq.push_back(spiece(a, (s * 5 + 1) % 6)); } run_seq(a, ab, sq, -1); },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG); std::string d = std::string(aname(a)) + " absorb"; for (int k = 0; k < 4; k++) d += fmt(" %zu", apiece(a, x.take(NA))); return d; }});
static mc::Reg s3({"k_clone", "cloning: every sequence of 2 absorbs (8 sizes) and 2 squeezes (6 sizes) with a clone taken at every step; original and clone continue differently",
    [](int) { return (uint64_t)NALG * 64 * 36 * 5; },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG); std::vector<size_t> ab, sq; for (int k = 0; k < 2; k++) ab.push_back(apiece(a, x.take(NA))); uint64_t s = x.take(36); int cl = x.take(5); if (!xof(a) && (s || cl > 2)) return; if (xof(a)) { sq.push_back(spiece(a, s % 6)); sq.push_back(spiece(a, s / 6)); } run_seq(a, ab, sq, cl); },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG); return fmt("%s clone case %lu", aname(a), (unsigned long)x.i); }});
static mc::Reg s4({"k_split", "incremental hashing: every input length 0..2*rate+3 split in two at every point, both squeezed and compared",
    [](int) { return (uint64_t)NALG * 340; },
    [](uint64_t i) { int a = i % NALG; size_t n = i / NALG; if (n > 2 * RATE[a] + 3) return; for (size_t k = 0; k <= n; k++) { std::vector<size_t> sq = {k % 7, n % 11 + 1, (k * n) % 200}; if (!xof(a)) sq.clear(); run_seq(a, {k, n - k}, sq, -1); } },
    [](uint64_t i) { return fmt("%s, all two-way splits of %lu bytes", aname(i % NALG), (unsigned long)(i / NALG)); }});
static mc::Reg s7({"k_pieces", "incremental hashing: every piece size 1..2*rate+3 absorbed 40 times in a row and squeezed 40 times in a row; 70000 pieces of one byte; pieces around every power of two to 2^20",
    [](int) { return (uint64_t)NALG * (340 + 1 + gen::NBIG); },
    [](uint64_t i) { int a = i % NALG; size_t n = i / NALG; std::vector<size_t> ab, sq; if (n < 340) { if (!n || n > 2 * RATE[a] + 3) return; ab.assign(40, n); sq.assign(40, n); } else if (n == 340) { ab.assign(70000, 1); sq.assign(70000, 1); } else { size_t b = gen::big(n - 341); ab = {3, b, 1}; sq = {5, b, 1}; } if (!xof(a)) sq.clear(); run_seq(a, ab, sq, n < 340 ? n % 43 : 1); },
    [](uint64_t i) { return fmt("%s, repeated pieces, case %lu", aname(i % NALG), (unsigned long)(i / NALG)); }});
static mc::Reg s5({"k_blocks", "block-wise SHAKE interface: every input length 0..4*rate+9, squeezeblocks sequences (0..3 blocks each, 3 calls), clone at each step; requests around every power of two to 2^16 blocks",
    [](int) { return 2ull * (690 + 33); },
    [](uint64_t i) { int a = i % 2; size_t n = i / 2; unsigned r = RATE[a];
        if (n >= 690) { size_t q = ((size_t)1 << (6 + (n - 690) / 3)) - 1 + (n - 690) % 3; Bytes in = mc::prf("blk", 50), want = ref_hash(a, in, (q + 1) * r); Call call; shake128ctx c1; shake256ctx c2; if (a) shake256_absorb(&c2, in.data(), 50); else shake128_absorb(&c1, in.data(), 50); for (int k = 0; k < 2; k++) { size_t nb = k ? 1 : q; mc::GBuf b(nb * r); if (a) shake256_squeezeblocks(b.p, nb, &c2); else shake128_squeezeblocks(b.p, nb, &c1); b.check("squeezeblocks"); mc::transition(); if (b.bytes() != sub(want, k * q * r, nb * r)) mc::fail("%s blocks: a request of %zu blocks is wrong", aname(a), nb); } if (a) shake256_ctx_release(&c2); else shake128_ctx_release(&c1); call.done("SHAKE blocks"); mc::state(mc::mix(q, a)); mc::trace(); return; }
        if (n > 4 * r + 9) return; Bytes in = mc::prf("blk", n);
        for (int s = 0; s < 64; s++) { size_t q[3] = {(size_t)(s & 3), (size_t)(s >> 2 & 3), (size_t)(s >> 4)}; if (n % 8 && s % 9) continue; int cl = s % 4; Bytes want = ref_hash(a, in, r * 14); Call call; shake128ctx c1, d1; shake256ctx c2, d2; mc::GBuf g(in, s & 1); g.readonly(); if (a) shake256_absorb(&c2, g.p, n); else shake128_absorb(&c1, g.p, n); mc::transition(); size_t o = 0, co = 0; bool cloned = false;
            for (int k = 0; k < 3; k++) { if (k == cl) { if (a) shake256_ctx_clone(&d2, &c2); else shake128_ctx_clone(&d1, &c1); cloned = true; co = o; } mc::GBuf b(q[k] * r, k & 1); if (a) shake256_squeezeblocks(b.p, q[k], &c2); else shake128_squeezeblocks(b.p, q[k], &c1); b.check("squeezeblocks"); mc::transition(); if (b.bytes() != sub(want, o, q[k] * r)) mc::fail("%s blocks: input %zu bytes, call %d of %zu blocks is wrong", aname(a), n, k, q[k]); o += q[k] * r; mc::state(mc::mix(mc::mix(n, o), a)); }
            if (cloned) { mc::GBuf b(2 * r); if (a) shake256_squeezeblocks(b.p, 2, &d2); else shake128_squeezeblocks(b.p, 2, &d1); if (b.bytes() != sub(want, co, 2 * r)) mc::fail("%s blocks: clone does not continue as its original", aname(a)); mc::GBuf b2(r); if (a) shake256_squeezeblocks(b2.p, 1, &c2); else shake128_squeezeblocks(b2.p, 1, &c1); if (b2.bytes() != sub(want, o, r)) mc::fail("%s blocks: original disturbed by clone", aname(a)); if (a) shake256_ctx_release(&d2); else shake128_ctx_release(&d1); }
            if (a) shake256_ctx_release(&c2); else shake128_ctx_release(&c1); call.done("SHAKE blocks"); mc::trace(); } },
    [](uint64_t i) { return fmt("%s blocks, input length %lu", aname(i % 2), (unsigned long)(i / 2)); }});
static mc::Reg s6({"k_interleave", "two hash contexts of any two functions used in alternation (every pair of functions, 3 piece patterns): each result as if alone",
    [](int) { return (uint64_t)NALG * NALG * 8 * 8; },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG), b = x.take(NALG), p = x.take(8), q = x.take(8); size_t n1 = apiece(a, p), n2 = apiece(b, q); Bytes i1 = mc::prf("i1", 3 * n1 + 1), i2 = mc::prf("i2", 3 * n2 + 1); Ctx c, d; Call call; c_init(a, c); c_init(b, d); for (int k = 0; k < 3; k++) { c_absorb(a, c, i1.data() + k * n1, n1); c_absorb(b, d, i2.data() + k * n2, n2); } c_absorb(b, d, i2.data() + 3 * n2, 1); c_absorb(a, c, i1.data() + 3 * n1, 1);
        Bytes o1(xof(a) ? 50 : OUT[a]), o2(xof(b) ? 50 : OUT[b]); if (xof(a)) { c_fin(a, c); c_squeeze(a, c, o1.data(), 20); } else c_finhash(a, c, o1.data()); if (xof(b)) { c_fin(b, d); c_squeeze(b, d, o2.data(), 50); } else c_finhash(b, d, o2.data()); if (xof(a)) c_squeeze(a, c, o1.data() + 20, 30); if (xof(a)) c_release(a, c); if (xof(b)) c_release(b, d); else { Ctx e, f; c_init(b, e); c_absorb(b, e, i2.data(), n2); c_clone(b, f, e); c_release(b, e); c_release(b, f); } call.done("hash"); if (o1 != ref_hash(a, i1, o1.size()) || o2 != ref_hash(b, i2, o2.size())) mc::fail("%s and %s contexts used in alternation give wrong results", aname(a), aname(b)); mc::state(i); mc::trace(); },
    [](uint64_t i) { mc::Idx x(i); int a = x.take(NALG), b = x.take(NALG); return fmt("%s interleaved with %s, case %lu", aname(a), aname(b), (unsigned long)x.i); }});
// ---------------------------------------------------------------- C10
static mc::Reg x1({"x_wrapper", "one-shot seed expansion: every seed length 0..300 x every output length 0..420; seeds and outputs around every power of two to 2^20; every single and combined refusal reason",
    [](int) { return 301ull + 1 + gen::NBIG; },
    [](uint64_t i) {
        if (i > 301) { size_t b = gen::big(i - 302); for (size_t n : {(size_t)32, (size_t)64, b}) for (size_t o : {b - 1, b, b + 1, 2 * b + 3}) { Bytes seed = mc::prf("xb", n), t = seed; t.push_back(2); mc::GBuf s(seed, o & 1), out(o, o & 1); s.readonly(); Call c; int rc = seedexpander_wrapper(s.p, n, out.p, o); c.done("seedexpander_wrapper"); out.check("expansion"); mc::state(mc::mix(mc::mix(n, o), rc)); if (o > n ? rc || out.bytes() != ref::shake256(t, o) : rc >= 0 || !out.all(0xA5)) mc::fail("expansion of a %zu-byte seed to %zu bytes returns %d or the wrong bytes", n, o, rc); } mc::trace(); return; }
        if (i < 301) { size_t n = i; Bytes seed = mc::prf("xs", n); Bytes t = seed; t.push_back(2); Bytes want = ref::shake256(t, 1200); for (size_t o = 0; o <= 420; o++) { if (n < 32 && o > 60 && o % 16) continue; mc::GBuf s(seed, o & 1), out(o, o & 1); s.readonly(); Call c; int rc = seedexpander_wrapper(s.p, n, out.p, o); c.done("seedexpander_wrapper"); out.check("expansion"); mc::state(mc::mix(mc::mix(n, o), rc)); bool ok = n >= 32 && o > n;
                if (ok) { if (rc) mc::fail("expansion of a %zu-byte seed to %zu bytes failed with %d", n, o, rc); if (out.bytes() != sub(want, 0, o)) mc::fail("expansion of a %zu-byte seed to %zu bytes is not SHAKE-256(seed || 2)", n, o); mc::outcome("expanded"); } else { if (rc >= 0) mc::fail("expansion with seed length %zu and output length %zu returned %d", n, o, rc); if (!out.all(0xA5)) mc::fail("refused expansion (%zu, %zu) wrote output", n, o); mc::outcome(rc == -1 ? "refused -1" : rc == -2 ? "refused -2" : "refused -3"); } }
            for (size_t o : {1000, 1088, 1089, 1200}) if (n >= 32) { mc::GBuf s(seed), out(o); int rc = seedexpander_wrapper(s.p, n, out.p, o); if (rc || out.bytes() != sub(want, 0, o)) mc::fail("expansion of %zu to %zu bytes is wrong", n, o); mc::transition(); } }
        else { mc::GBuf s(mc::prf("z", 64)), o(128); s.readonly(); int a1 = seedexpander_wrapper(nullptr, 64, o.p, 128), a2 = seedexpander_wrapper(s.p, 64, nullptr, 128), a3 = seedexpander_wrapper(nullptr, 64, nullptr, 128), b = seedexpander_wrapper(s.p, 31, o.p, 128), c = seedexpander_wrapper(s.p, 64, o.p, 64); mc::transition(5); if (!(a1 < 0 && a2 < 0 && a3 < 0 && b < 0 && c < 0) || a1 != a2 || b == a1 || c == a1 || c == b) mc::fail("refusal codes %d %d %d %d %d are not distinct negative codes per reason", a1, a2, a3, b, c);
            for (size_t n : {(size_t)0, (size_t)1, (size_t)31}) for (size_t ol : {(size_t)0, (size_t)31, (size_t)32, (size_t)128}) for (int m = 0; m < 4; m++) { int rc = seedexpander_wrapper(m & 1 ? nullptr : s.p, n, m & 2 ? nullptr : o.p, ol); mc::transition(); if (rc >= 0) mc::fail("bad arguments (seedlen %zu, outlen %zu, pointer mask %d) returned %d", n, ol, m, rc); }
            for (size_t n : {(size_t)-1, (size_t)1 << 63, (size_t)1 << 32, ((size_t)1 << 32) + 40, (size_t)-33}) for (size_t ol : {(size_t)0, (size_t)64, (size_t)128}) { int rc = seedexpander_wrapper(s.p, n, o.p, ol); mc::transition(); if (rc >= 0) mc::fail("seed length %zu with output length %zu returned %d", n, ol, rc); } if (!o.all(0xA5)) mc::fail("a refused expansion wrote output"); mc::outcome("refusals"); }
        mc::trace(); },
    [](uint64_t i) { return i < 301 ? fmt("seed length %lu, all output lengths", (unsigned long)i) : i > 301 ? fmt("seeds and outputs around %zu", gen::big(i - 302)) : std::string("refusal reasons"); }});
static const size_t XP[10] = {0, 1, 7, 8, 9, 16, 63, 136, 137, 272};
static mc::Reg x2({"x_stream", "incremental seed expander: every sequence of 4 requests from 10 sizes x 5 seed lengths, against consecutive whole 8-byte blocks of SHAKE-256(seed || 2)",
    [](int) { return 10000ull * 5; },
    [](uint64_t i) { mc::Idx x(i); size_t sl = (size_t[]){32, 0, 64, 135, 136}[x.take(5)]; size_t r[4]; for (auto &v : r) v = XP[x.take(10)]; Bytes seed = mc::prf("st", sl), t = seed; t.push_back(2); Bytes want = ref::shake256(t, 1200); Call c; seedexpander_state st; { mc::GBuf s(seed); s.readonly(); seedexpander_init(&st, s.p, sl); } size_t o = 0; for (auto n : r) { mc::GBuf g(n, n & 1); seedexpander(&st, g.p, n); g.check("seedexpander"); mc::transition(); if (g.bytes() != sub(want, o, n)) mc::fail("request of %zu bytes at stream offset %zu (seed %zu bytes) returned the wrong bytes", n, o, sl); o += (n + 7) / 8 * 8; mc::state(mc::mix(o, sl)); } seedexpander_release(&st); c.done("seed expander"); mc::trace(); },
    [](uint64_t i) { mc::Idx x(i); size_t sl = (size_t[]){32, 0, 64, 135, 136}[x.take(5)]; std::string d = fmt("seed length %zu, requests", sl); for (int k = 0; k < 4; k++) d += fmt(" %zu", XP[x.take(10)]); return d; }});
static mc::Reg x3({"x_lens", "incremental seed expander: every pair of request sizes (0..300, 0..40) and (0..40, 0..300), requests around every power of two to 2^20, 70000 requests of one byte",
    [](int) { return 301ull + gen::NBIG + 1; },
    [](uint64_t i) { if (i >= 301) { Bytes seed = mc::prf("sl", 40), t = seed; t.push_back(2); std::vector<size_t> r; if (i - 301 < gen::NBIG) { size_t b = gen::big(i - 301); r = {b, 24, b, 1, 7}; } else r.assign(70000, 1); size_t tot = 0; for (auto n : r) tot += (n + 7) / 8 * 8; Bytes want = ref::shake256(t, tot); Call c; seedexpander_state st; seedexpander_init(&st, seed.data(), 40); size_t o = 0; for (auto n : r) { mc::GBuf g(n, n & 1); seedexpander(&st, g.p, n); g.check("seedexpander"); mc::transition(); if (g.bytes() != sub(want, o, n)) mc::fail("request of %zu bytes at stream offset %zu returned the wrong bytes", n, o); o += (n + 7) / 8 * 8; } seedexpander_release(&st); c.done("seed expander"); mc::state(mc::mix(i, 99)); mc::trace(); return; } Bytes seed = mc::prf("sl", 40), t = seed; t.push_back(2); Bytes want = ref::shake256(t, 800); for (int sw = 0; sw < 2; sw++) for (size_t b = 0; b <= 40; b++) { size_t r[3] = {sw ? b : i, sw ? i : b, 24}; Call c; seedexpander_state st; seedexpander_init(&st, seed.data(), 40); size_t o = 0; for (auto n : r) { mc::GBuf g(n, n & 1); seedexpander(&st, g.p, n); g.check("seedexpander"); mc::transition(); if (g.bytes() != sub(want, o, n)) mc::fail("request of %zu bytes at stream offset %zu returned the wrong bytes", n, o); o += (n + 7) / 8 * 8; } seedexpander_release(&st); c.done("seed expander"); mc::state(mc::mix(i, b * 2 + sw)); } mc::trace(); },
    [](uint64_t i) { return fmt("request sizes with %lu", (unsigned long)i); }});
static mc::Reg x4({"x_values", "seed expander: every byte of a 32-byte and of a 64-byte seed over all 256 values",
    [](int) { return 96ull; },
    [](uint64_t i) { size_t n = i < 32 ? 32 : 64, p = i < 32 ? i : i - 32; for (int v = 0; v < 256; v++) { Bytes seed = mc::prf("sv", n); seed[p] = v; Bytes t = seed; t.push_back(2); mc::GBuf s(seed), o(n + 96); s.readonly(); Call c; int rc = seedexpander_wrapper(s.p, n, o.p, n + 96); c.done("seedexpander_wrapper"); if (rc || o.bytes() != ref::shake256(t, n + 96)) mc::fail("expansion wrong (rc %d) for %zu-byte seed with byte %zu = %d", rc, n, p, v); mc::state(mc::hash(o.p, 8)); } mc::trace(); },
    [](uint64_t i) { return fmt("seed byte %lu", (unsigned long)i); }});
static mc::Reg x5({"x_pairs", "seed expander: every pair of positions of a 64-byte seed takes every pair of byte values (65536 rows; every three positions, 2^24 rows, in thorough); every leading/trailing run and every window of zero or 0xFF bytes in seeds of 32, 40 and 64 bytes",
    [](int t) { return (t ? 65536ull : 256ull) + 3; },
    [](uint64_t i) { auto go = [](const Bytes &seed) { static mc::GBuf s(64), o(96); size_t n = seed.size(); memcpy(s.p + 64 - n, seed.data(), n); Bytes t = seed; t.push_back(2); memset(o.p, 0xA5, 96); int rc = seedexpander_wrapper(s.p + 64 - n, n, o.p, 96); mc::transition(); if (rc || o.bytes() != ref::shake256(t, 96)) mc::fail("expansion wrong (rc %d) for seed %s", rc, hex(seed, 64).c_str()); };
        uint64_t nb = mc::tier ? 65536 : 256; if (i < nb) for (uint32_t a = 0; a < 256; a++) go(oa3(a | (uint32_t)i << 8, 64)); else { size_t n = (size_t[]){32, 40, 64}[i - nb]; for (uint32_t r = 0; r < 8 * n; r++) go(runs(r, n, "x")); for (auto &w : windows(n, 1, "x")) go(w); for (uint32_t r = 0; r < 512; r++) go(special(r, n)); } mc::state(i); mc::trace(); },
    [](uint64_t i) { return fmt("seed rows %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C15
static Bytes b_stream(size_t n, const Bytes &no, const Bytes &k, bool xs, bool left) { mc::GBuf c(n, left), a(no), b(k); a.readonly(); b.readonly(); Call q; int rc = xs ? crypto_stream_xsalsa20_tweet(c.p, n, a.p, b.p) : crypto_stream_salsa20_tweet(c.p, n, a.p, b.p); q.done("stream"); c.check("stream"); if (rc) mc::fail("stream returned %d", rc); mc::state(mc::mix(n, mc::hash(k, mc::hash(no)))); return c.bytes(); }
static Bytes b_xor(const Bytes &m, const Bytes &no, const Bytes &k, bool xs, bool left) { mc::GBuf c(m.size(), left), x(m, left), a(no), b(k); x.readonly(); a.readonly(); b.readonly(); Call q; int rc = xs ? crypto_stream_xsalsa20_tweet_xor(c.p, x.p, m.size(), a.p, b.p) : crypto_stream_salsa20_tweet_xor(c.p, x.p, m.size(), a.p, b.p); q.done("stream xor"); c.check("stream xor"); if (rc) mc::fail("stream xor returned %d", rc); return c.bytes(); }
static Bytes b_poly(const Bytes &m, const Bytes &k, bool left) { mc::GBuf o(16), x(m, left), b(k); x.readonly(); b.readonly(); Call q; int rc = crypto_onetimeauth_poly1305_tweet(o.p, x.p, m.size(), b.p); q.done("poly1305"); o.check("poly1305"); if (rc) mc::fail("poly1305 returned %d", rc); mc::state(mc::hash(o.p, 16)); return o.bytes(); }
static Bytes b_sha(const Bytes &m, bool left) { mc::GBuf o(64), x(m, left); x.readonly(); Call q; int rc = crypto_hash_sha512_tweet(o.p, x.p, m.size()); q.done("sha512"); o.check("sha512"); if (rc) mc::fail("sha512 returned %d", rc); mc::state(mc::hash(o.p, 16)); return o.bytes(); }
static Bytes xorv(Bytes a, const Bytes &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
static int b_verify(const Bytes &tag, const Bytes &m, const Bytes &k) { mc::GBuf t(tag), x(m), b(k); t.readonly(); x.readonly(); b.readonly(); mc::transition(); return crypto_onetimeauth_poly1305_tweet_verify(t.p, x.p, m.size(), b.p); }
static mc::Reg n1({"n_lengths", "NaCl streams, xor, Poly1305, SHA-512 and secretbox: every length 0..1100 (both buffer placements), lengths around every power of two to 2^20 and around the 2^8- and 2^16-block counter carries",
    [](int) { return 1101ull + 12 + gen::NBIG; },
    [](uint64_t i) { size_t n = i <= 1100 ? i : i >= 1113 ? gen::big(i - 1113) : (size_t[]){16320, 16383, 16384, 16385, 16448, 16449, 32768 + 64, 65536 * 64 - 1, 65536 * 64 + 65, 4096, 5000, 20001}[i - 1101]; Bytes k = mc::prf("nk", 32), no = mc::prf("nn", 24), n8 = sub(no, 0, 8), m = mc::prf("nm", n); bool l = i & 1;
        if (b_stream(n, n8, k, false, l) != ref::salsa20(n, n8, k)) mc::fail("Salsa20 stream of %zu bytes is wrong", n); Bytes xs = ref::xsalsa20(n, no, k); if (b_stream(n, no, k, true, l) != xs) mc::fail("XSalsa20 stream of %zu bytes is wrong", n); if (b_xor(m, no, k, true, l) != xorv(m, xs)) mc::fail("XSalsa20 xor of %zu bytes is wrong", n); if (b_xor(m, n8, k, false, l) != xorv(m, ref::salsa20(n, n8, k))) mc::fail("Salsa20 xor of %zu bytes is wrong", n);
        if (n < 2000000) { Bytes tag = ref::poly1305(m, k); if (b_poly(m, k, l) != tag) mc::fail("Poly1305 of %zu bytes is wrong", n); if (b_verify(tag, m, k)) mc::fail("Poly1305 verify rejects the right tag (%zu bytes)", n); for (int b = 0; b < 128; b += n < 10000 ? 1 : 31) if (!b_verify(flip(tag, b), m, k)) mc::fail("Poly1305 verify accepts a tag with bit %d changed", b);
            if (b_sha(m, l) != ref::sha512(m)) mc::fail("SHA-512 of %zu bytes is wrong", n); if (n < 1101) for (int c = 1; c < 3; c++) if (b_sha(content(c, n, ""), !l) != ref::sha512(content(c, n, ""))) mc::fail("SHA-512 of %zu constant bytes is wrong", n); }
        { Bytes pm = cat({Bytes(32, 0), m}); mc::GBuf c(pm.size(), l), x(pm, l), a(no), b(k); x.readonly(); a.readonly(); b.readonly(); Call q; int rc = crypto_secretbox_xsalsa20poly1305_tweet(c.p, x.p, pm.size(), a.p, b.p); q.done("secretbox"); c.check("secretbox"); if (rc) mc::fail("secretbox returned %d", rc); if (n < 2000000 && c.bytes() != ref::secretbox(pm, no, k)) mc::fail("secretbox of %zu bytes is wrong", n); mc::GBuf cc(c.bytes(), l), o(pm.size(), l); cc.readonly(); rc = crypto_secretbox_xsalsa20poly1305_tweet_open(o.p, cc.p, pm.size(), a.p, b.p); o.check("secretbox open"); mc::transition(); if (rc || o.bytes() != pm) mc::fail("secretbox_open does not return the message (%zu bytes, rc %d)", n, rc); }
        mc::trace(); },
    [](uint64_t i) { return fmt("length case %lu", (unsigned long)i); }});
static mc::Reg n1b({"n_align", "NaCl streams, xor, Poly1305, SHA-512 with buffers at every address modulo 8 (thorough: modulo 16): every length 0..300",
    [](int) { return 301ull; },
    [](uint64_t i) { size_t n = i; Bytes k = mc::prf("nk", 32), no = mc::prf("nn", 24), n8 = sub(no, 0, 8), m = mc::prf("nm", n), s0 = ref::salsa20(n, n8, k), xs = ref::xsalsa20(n, no, k), x0 = xorv(m, s0), x1 = xorv(m, xs), tag = ref::poly1305(m, k), h = ref::sha512(m);
        for (int d = 1; d < (mc::tier ? 16 : 8); d++) { Shift s(d); if (b_stream(n, n8, k, false, 0) != s0 || b_stream(n, no, k, true, 0) != xs || b_xor(m, no, k, true, 0) != x1 || b_xor(m, n8, k, false, 0) != x0) mc::fail("stream of %zu bytes at an address %d modulo 16 is wrong", n, d); if (b_poly(m, k, 0) != tag || b_verify(tag, m, k)) mc::fail("Poly1305 of %zu bytes at an address %d modulo 16 is wrong", n, d); if (b_sha(m, 0) != h) mc::fail("SHA-512 of %zu bytes at an address %d modulo 16 is wrong", n, d); }
        mc::trace(); },
    [](uint64_t i) { return fmt("%lu bytes at every address modulo 8", (unsigned long)i); }});
static mc::Reg n1c({"n_hashblocks", "SHA-512 compression: every length 0..1100 (only whole blocks consumed, the remainder returned), covering arrays, special pairs, runs and windows of 00/FF over state and block, any address modulo 8",
    [](int) { return 1101ull + 2048 + 512 + 1536; },
    [](uint64_t i) { Bytes st, m; if (i < 1101) { st = mc::prf("hbs", 64); m = content(i % 4, i, "hb"); } else { uint64_t j = i - 1101; Bytes a = j < 2048 ? oa((uint32_t)((j & 255) | (j >> 8) * 13 << 8), 192) : j < 2560 ? special((uint32_t)(j - 2048), 192) : runs((uint32_t)(j - 2560), 192, "hb"); st = sub(a, 0, 64); m = sub(a, 64, 128); }
        Bytes want = ref::sha512(m, &st); for (int d = 0; d < 3; d++) { Shift s(d == 2 ? 1 + i % 7 : 0); mc::GBuf x(st, d & 1), b(m, d & 1); b.readonly(); Call q; int rc = crypto_hashblocks_sha512_tweet(x.p, b.p, m.size()); q.done("hashblocks"); x.check("hashblocks state"); mc::state(mc::hash(x.p, 64)); if (rc != (int)(m.size() % 128)) mc::fail("SHA-512 compression of %zu bytes returned %d, not the remainder", m.size(), rc); if (x.bytes() != want) mc::fail("SHA-512 compression of %zu bytes from state %s is wrong", m.size(), hex(st, 64).c_str()); }
        mc::trace(); },
    [](uint64_t i) { return fmt("compression case %lu", (unsigned long)i); }});
static mc::Reg n2({"n_bytes", "NaCl: covering arrays over key and nonce bytes (every position, every value; every pair of positions, every pair of 16 special values; every run of zero or 0xFF bytes) for Salsa20 cores and streams, Poly1305 keys and messages, Curve25519 scalars and points",
    [](int t) { return (t ? 16384ull : 2048ull) + 512 + 1600; },
    [](uint64_t i) { uint64_t nr = mc::tier ? 16384 : 2048; Bytes all = i < nr ? oa((uint32_t)((i & 255) | (i >> 8) * 13 << 8), 200) : i < nr + 512 ? special((uint32_t)(i - nr), 200) : runs((uint32_t)(i - nr - 512), 200, "n"); Bytes k = sub(all, 0, 32), no = sub(all, 32, 24), in16 = sub(all, 56, 16), c16 = sub(all, 72, 16), sc = sub(all, 88, 32), pt = sub(all, 120, 32), m = sub(all, 100, 17 + i % 64);
        { mc::GBuf o(64), a(in16), b(k), c(c16); a.readonly(); b.readonly(); c.readonly(); crypto_core_salsa20_tweet(o.p, a.p, b.p, c.p); o.check("core"); if (o.bytes() != ref::core_salsa20(in16, k, c16.data())) mc::fail("Salsa20 core is wrong on row %lu", (unsigned long)i); mc::GBuf o2(32); crypto_core_hsalsa20_tweet(o2.p, a.p, b.p, c.p); o2.check("core"); if (o2.bytes() != ref::core_hsalsa20(in16, k, c16.data())) mc::fail("HSalsa20 core is wrong on row %lu", (unsigned long)i); mc::transition(2); }
        if (b_stream(130, no, k, true, i & 1) != ref::xsalsa20(130, no, k)) mc::fail("XSalsa20 stream is wrong on row %lu", (unsigned long)i); if (b_poly(m, k, i & 1) != ref::poly1305(m, k)) mc::fail("Poly1305 is wrong on row %lu", (unsigned long)i);
        { mc::GBuf q(32), a(sc), b(pt); a.readonly(); b.readonly(); int rc = crypto_scalarmult_curve25519_tweet(q.p, a.p, b.p); q.check("scalarmult"); mc::transition(); if (rc || q.bytes() != ref::x25519(sc, pt)) mc::fail("Curve25519 is wrong for scalar %s point %s", hex(sc).c_str(), hex(pt).c_str()); Bytes nine(32, 0); nine[0] = 9; rc = crypto_scalarmult_curve25519_tweet_base(q.p, a.p); mc::transition(); if (rc || q.bytes() != ref::x25519(sc, nine)) mc::fail("Curve25519 base multiplication is wrong for scalar %s", hex(sc).c_str()); mc::state(mc::hash(q.p, 32)); }
        mc::trace(); },
    [](uint64_t i) { return fmt("covering-array row %lu", (unsigned long)i); }});
static mc::Reg n3({"n_special", "arithmetic boundaries: Poly1305 accumulators within 8 of 2^130-5 and 2^128 for small r and maximal r/s; Curve25519 on special, low-order and non-canonical points and scalars; all-ones blocks; comparisons: every pair of bits, every pair of bytes swapped, changed alike or oppositely, every rotation",
    [](int) { return 4ull; },
    [](uint64_t i) {
        if (i == 0) for (int r = 1; r <= 4; r++) for (int nb = 1; nb <= 5; nb++) for (int d = -12; d <= 12; d++) for (int sx = 0; sx < 3; sx++) { // blocks all 0xFF except the last, which is moved by d
            Bytes k(32, 0); k[0] = r; if (sx) for (int j = 16; j < 32; j++) k[j] = sx == 1 ? 0xFF : 0x80; Bytes m(16 * nb, 0xFF); m[16 * (nb - 1)] = (uint8_t)(d < 0 ? 256 + d : d); for (int z = 0; z < 3; z++) { if (z == 1) for (int j = 1; j < 16; j++) m[16 * (nb - 1) + j] = d < 0 ? 0xFF : 0; if (z == 2) m.resize(16 * nb - 5); if (b_poly(m, k, d & 1) != ref::poly1305(m, k)) mc::fail("Poly1305 wrong for r=%d, %zu bytes %s", r, m.size(), hex(m, 96).c_str()); } }
        else if (i == 1) for (int p = 0; p < 32; p++) for (int v : {0, 1, 3, 4, 0x0f, 0x10, 0x7f, 0x80, 0xfc, 0xff}) for (int f : {0, 0xff}) { Bytes k(32, f); k[p] = v; for (size_t n : {0, 1, 15, 16, 17, 31, 32, 33, 64, 100}) for (int c : {0xff, 0xfb, 0}) { Bytes m(n, c); if (b_poly(m, k, n & 1) != ref::poly1305(m, k)) mc::fail("Poly1305 wrong for key byte %d = %d on fill %d", p, v, f); } }
        else if (i == 2) { std::vector<Bytes> pts, scs; Bytes p(32, 0); for (int d = 0; d < 40; d++) { Bytes x(32, 0); x[0] = d; pts.push_back(x); Bytes y(32, 0xFF); y[31] = 0x7F; y[0] = 0xD0 + d; pts.push_back(y); y[31] = 0xFF; pts.push_back(y); x[31] = 0x80; pts.push_back(x); }
            const char *low[] = {"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"}; for (auto h : low) { Bytes b; for (int j = 0; j < 32; j++) { unsigned v; sscanf(h + 2 * j, "%2x", &v); b.push_back(v); } pts.push_back(b); }
            for (int b = 0; b < 256; b++) { Bytes s(32, 0); s[b / 8] = 1 << (b % 8); scs.push_back(s); } scs.push_back(Bytes(32, 0xFF)); scs.push_back(Bytes(32, 0)); scs.push_back(mc::prf("sc", 32));
            for (size_t a = 0; a < pts.size(); a++) for (size_t b = 0; b < scs.size(); b += (a % 8 == 0 ? 4 : 37)) { mc::GBuf q(32), x(scs[(b + a) % scs.size()]), y(pts[a]); x.readonly(); y.readonly(); crypto_scalarmult_curve25519_tweet(q.p, x.p, y.p); q.check("scalarmult"); mc::transition(); mc::state(mc::hash(q.p, 32)); if (q.bytes() != ref::x25519(x.bytes(), pts[a])) mc::fail("Curve25519 wrong for scalar %s point %s", hex(x.bytes()).c_str(), hex(pts[a]).c_str()); } }
        else { for (int n : {16, 32}) for (int p = 0; p < n * 8; p++) for (int q = p; q < n * 8; q += (q == p ? 1 : 3)) { Bytes a = mc::prf("v", n), b = flip(a, p); if (q != p) b = flip(b, q); mc::GBuf x(a), y(b); x.readonly(); y.readonly(); int rc = n == 16 ? crypto_verify_16_tweet(x.p, y.p) : crypto_verify_32_tweet(x.p, y.p); mc::transition(); if (!rc) mc::fail("crypto_verify_%d calls different strings equal (bits %d,%d)", n, p, q); if (p == q) { mc::GBuf z(a); rc = n == 16 ? crypto_verify_16_tweet(x.p, z.p) : crypto_verify_32_tweet(x.p, z.p); if (rc) mc::fail("crypto_verify_%d calls equal strings different", n); } mc::state(mc::mix(p, q * 2 + n)); }
            for (int n : {16, 32}) for (size_t j = 0; j < nfolds(n); j++) for (int c = 0; c < 3; c++) { Bytes a = c ? Bytes(n, c == 1 ? 0 : 0xFF) : mc::prf("vf", n), b = fold(a, j); mc::GBuf x(a), y(b); x.readonly(); y.readonly(); int rc = n == 16 ? crypto_verify_16_tweet(x.p, y.p) : crypto_verify_32_tweet(x.p, y.p); mc::transition(); if (!rc) mc::fail("crypto_verify_%d calls %s and %s equal", n, hex(a, 32).c_str(), hex(b, 32).c_str()); mc::state(mc::hash(b, n)); }
            Bytes k = mc::prf("vfk", 32); for (size_t len : {0, 16, 45}) { Bytes m = content(0, len, "vf"), tag = ref::poly1305(m, k); for (size_t j = 0; j < nfolds(16); j++) if (!b_verify(fold(tag, j), m, k)) mc::fail("Poly1305 verify accepts tag %s instead of %s", hex(fold(tag, j), 16).c_str(), hex(tag, 16).c_str()); } }
        mc::trace(); },
    [](uint64_t i) { return std::string((const char *[]){"Poly1305 near the modulus", "Poly1305 key bytes", "Curve25519 special points", "crypto_verify"}[i]); }});
struct BoxApi { int kind; }; // 0 secretbox, 1 box, 2 afternm
static int box_seal(int kind, uint8_t *c, const uint8_t *m, size_t n, const uint8_t *no, const uint8_t *a, const uint8_t *b) { return kind == 0 ? crypto_secretbox_xsalsa20poly1305_tweet(c, m, n, no, a) : kind == 1 ? crypto_box_curve25519xsalsa20poly1305_tweet(c, m, n, no, a, b) : crypto_box_curve25519xsalsa20poly1305_tweet_afternm(c, m, n, no, a); }
static int box_open(int kind, uint8_t *m, const uint8_t *c, size_t n, const uint8_t *no, const uint8_t *a, const uint8_t *b) { return kind == 0 ? crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, n, no, a) : kind == 1 ? crypto_box_curve25519xsalsa20poly1305_tweet_open(m, c, n, no, a, b) : crypto_box_curve25519xsalsa20poly1305_tweet_open_afternm(m, c, n, no, a); }
static Bytes BA_pk, BA_sk, BB_pk, BB_sk;
static void box_setup() { Bytes nine(32, 0); nine[0] = 9; BA_sk = mc::prf("basks", 32); BB_sk = mc::prf("bbsk", 32); BA_pk = ref::x25519(BA_sk, nine); BB_pk = ref::x25519(BB_sk, nine); }
static mc::Reg n4({"n_box", "boxes: every message length 0..200 (and around every power of two to 2^20) sealed and opened for secretbox, box and precomputed box; every byte of ciphertext, nonce and key changed; every ciphertext length below 32 and every truncation",
    [](int) { box_setup(); return 3ull * 201 + 3 + 3 * gen::NBIG; },
    [](uint64_t i) { if (i >= 603 && i < 606) { int kind = i - 603; uint8_t keyA[32], out[64]; mc::GBuf k(mc::prf("kk", 32)), no(mc::prf("bn", 24)), pk(BB_pk), sk(BA_sk); for (int n = 0; n < 32; n++) for (int z = 0; z < 2; z++) { mc::GBuf c(Bytes(n, z ? 0x33 : 0)), m(n); c.readonly(); int rc = box_open(kind, m.p, c.p, n, no.p, kind == 1 ? pk.p : k.p, sk.p); mc::transition(); m.check("short box"); if (!rc) mc::fail("opening a %d-byte box succeeded", n); mc::state(mc::mix(n, kind)); } (void)keyA; (void)out; mc::trace(); return; }
        int kind = i % 3; size_t n = i >= 606 ? gen::big((i - 606) / 3) : i / 3; Bytes no = mc::prf("bn", 24), k = mc::prf("bk", 32); Bytes shared = ref::box_beforenm(BB_pk, BA_sk); Bytes m = mc::prf("bm", n), pm = cat({Bytes(32, 0), m}); Bytes key = kind == 0 ? k : shared; Bytes want = ref::secretbox(pm, no, key);
        if (kind == 2) { mc::GBuf o(32), a(BB_pk), b(BA_sk); a.readonly(); b.readonly(); int rc = crypto_box_curve25519xsalsa20poly1305_tweet_beforenm(o.p, a.p, b.p); o.check("beforenm"); mc::transition(); if (rc || o.bytes() != shared) mc::fail("box_beforenm is wrong (rc %d)", rc); }
        Bytes a1 = kind == 0 ? k : kind == 1 ? BB_pk : shared, b1 = BA_sk, a2 = kind == 1 ? BA_pk : a1, b2 = BB_sk; mc::GBuf c(pm.size(), n & 1), x(pm, n & 1), gn(no), ga(a1), gb(b1); x.readonly(); gn.readonly(); ga.readonly(); gb.readonly(); Call q; int rc = box_seal(kind, c.p, x.p, pm.size(), gn.p, ga.p, gb.p); q.done("box"); c.check("box"); if (rc || c.bytes() != want) mc::fail("box kind %d of %zu bytes is wrong (rc %d)", kind, n, rc);
        auto open_ = [&](const Bytes &cc, const Bytes &nn, const Bytes &aa, const Bytes &bb, Bytes &out) { mc::GBuf o(cc.size(), n & 1), xc(cc, n & 1), xn(nn), xa(aa), xb(bb); xc.readonly(); xn.readonly(); xa.readonly(); xb.readonly(); Call z; int r = box_open(kind, o.p, xc.p, cc.size(), xn.p, xa.p, xb.p); z.done("box open"); o.check("box open"); out = o.bytes(); mc::state(mc::mix(mc::hash(cc), mc::mix(mc::hash(nn), r))); mc::outcome(r ? "open rejected" : "open accepted"); return r; };
        Bytes o; if (open_(want, no, a2, b2, o) || o != pm) mc::fail("opening a box of %zu bytes (kind %d) fails or returns the wrong message", n, kind);
        auto bad = [&](const Bytes &cc, const Bytes &nn, const Bytes &aa, const Bytes &bb, const char *what, size_t at) { Bytes oo; int r = open_(cc, nn, aa, bb, oo); if (!r) mc::fail("box (kind %d, %zu bytes) opened although %s %zu was changed", kind, n, what, at); if (n >= 4 && cc.size() == pm.size() && sub(oo, 32, n) == m) mc::fail("rejected box (kind %d, %zu bytes, %s %zu) released its plaintext", kind, n, what, at); };
        if (n > 600) { for (size_t p : {(size_t)16, (size_t)31, (size_t)32, n / 2, n + 31}) bad(xorb(want, p, 1 << ((p + n) % 8)), no, a2, b2, "ciphertext byte", p); bad(sub(want, 0, n + 31), no, a2, b2, "length", n + 31); } else if (kind != 1 || n % 25 == 3) { for (size_t p = 16; p < want.size(); p++) bad(xorb(want, p, 1 << ((p + n) % 8)), no, a2, b2, "ciphertext byte", p); for (size_t p = 0; p < 24; p++) bad(want, xorb(no, p, 1 << ((p + n) % 8)), a2, b2, "nonce byte", p); for (size_t p = 0; p < 32; p++) bad(want, no, xorb(a2, p, kind == 1 && p == 31 ? 1 : 1 << ((p + n) % 8)), b2, "key byte", p); if (kind == 1) for (size_t p = 1; p < 31; p++) bad(want, no, a2, xorb(b2, p, 1 << ((p + n) % 8)), "secret key byte", p); for (size_t l = 32; l < want.size(); l++) bad(sub(want, 0, l), no, a2, b2, "length", l); { Bytes e = want; e.push_back(0); bad(e, no, a2, b2, "length", e.size()); } }
        mc::trace(); },
    [](uint64_t i) { return i >= 606 ? fmt("box kind %lu, message of %zu bytes", (unsigned long)(i % 3), gen::big((i - 606) / 3)) : i >= 603 ? fmt("short ciphertexts, kind %lu", (unsigned long)(i - 603)) : fmt("box kind %lu, message of %lu bytes", (unsigned long)(i % 3), (unsigned long)(i / 3)); }});
static mc::Reg n5({"n_boxkeys", "box key generation from every OS delivery chunking: secret key is the OS bytes, public key their base multiple",
    [](int) { return 64ull; },
    [](uint64_t i) { env::reset(fmt("bx%lu", (unsigned long)i)); env::rng.max_chunk = i % 33; env::rng.eintr_mask = i / 33 * 5; mc::GBuf pk(32), sk(32); Call c; int rc = crypto_box_curve25519xsalsa20poly1305_tweet_keypair(pk.p, sk.p); c.done("box_keypair"); pk.check("pk"); sk.check("sk"); Bytes nine(32, 0); nine[0] = 9; Bytes s = env::expect(env::rng.tape, 0, 32); if (rc || sk.bytes() != s || pk.bytes() != ref::x25519(s, nine)) mc::fail("box key pair (rc %d) is not the one of the 32 OS bytes", rc); mc::state(mc::hash(pk.p, 32)); mc::trace(); },
    [](uint64_t i) { return fmt("box_keypair case %lu", (unsigned long)i); }});
