// Explorers of the component schemes: Dilithium2 (C12), SPHINCS+ (C13), Ed25519 (C14).
#include "gen.hpp"
using namespace im; using namespace gen; using mc::fmt; using mc::hex;
#define DIL(f) PQCLEAN_DILITHIUM2_CLEAN_##f
#define SPH(f) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##f
struct SizeBox { mc::GBuf g; SizeBox() : g(sizeof(size_t)) { size_t v = (size_t)LENMAGIC; memcpy(g.p, &v, sizeof v); } size_t get() const { size_t v; memcpy(&v, g.p, sizeof v); return v; } size_t *ptr() { return (size_t *)g.p; } };
// ---------------------------------------------------------------- C12 Dilithium
static int dv(const Bytes &sig, const Bytes &m, const Bytes &pk, size_t siglen = (size_t)-1) { mc::GBuf s(sig), x(m), k(pk); s.readonly(); x.readonly(); k.readonly(); Call c; int rc = DIL(crypto_sign_verify)(s.p, siglen == (size_t)-1 ? sig.size() : siglen, x.p, m.size(), k.p); c.done("Dilithium verify"); mc::state(mc::mix(mc::hash(sig, mc::hash(m)), mc::hash(pk, rc))); mc::outcome(rc ? "dilithium rejected" : "dilithium accepted"); return rc; }
static Bytes dsig(const Bytes &m, const Bytes &sk, bool left) { mc::GBuf s(2420, left), x(m, left), k(sk, left); SizeBox L; x.readonly(); k.readonly(); Call c; int rc = DIL(crypto_sign_signature)(s.p, L.ptr(), x.p, m.size(), k.p); c.done("Dilithium sign"); s.check("Dilithium signature"); if (rc) mc::fail("Dilithium signing returned %d", rc); if (L.get() != 2420) mc::fail("Dilithium signing reported %zu bytes", L.get()); mc::state(mc::hash(s.p, 32)); return s.bytes(); }
static void expect_sig(const RefKey &rk, const Bytes &m, bool left, const char *what, int *att = nullptr) { Bytes want; ref::dil::SignTrace t; rk.ds.sign(m, want, &t); Bytes got = dsig(m, sub(rk.k.sk, 64, 2560), left); if (got != want) { size_t i = 0; while (got[i] == want[i]) i++; mc::fail("%s: Dilithium signature of %zu-byte message %s differs from the specification at byte %zu (attempt %d)", what, m.size(), hex(m, 64).c_str(), i, t.attempts); } if (dv(got, m, sub(rk.k.pk, 32, 1312))) mc::fail("%s: Dilithium verification rejects the specified signature of a %zu-byte message", what, m.size()); if (att) *att = t.attempts; for (int b = 0; b < 13; b++) if (t.ev >> b & 1) { static const char *n[] = {"|z| at its bound", "|z| one below", "|w0| at its bound", "|w0| one below", "|c t0| at its bound", "|c t0| above its bound", "exactly 80 hints", "81 hints", "low part -gamma2, high part not 0", "low part -gamma2, high part 0", "low part gamma2", "low part gamma2+1", "low part -gamma2-1"}; mc::outcome(n[b]); } mc::outcome(t.attempts == 1 ? "first attempt" : t.attempts < 8 ? "2-7 attempts" : t.attempts < 20 ? "8-19 attempts" : "20+ attempts"); if (t.rejh) mc::outcome("hint-count rejection"); if (t.rejt0) mc::outcome("ct0 rejection"); if (t.hints >= 78) mc::outcome("78-80 hints"); }
static void rk_setup(int n) { for (int i = 0; i < n; i++) rkey(i); }
static mc::Reg d1({"d_sign_len", "Dilithium: every message length 0..600 and lengths around every power of two to 2^20 (two keys), detached and combined, in place where documented, bit-exact against the specification",
    [](int) { rk_setup(2); return (601ull + gen::NBIG) * 2; },
    [](uint64_t i) { size_t n = i / 2; if (n > 600) n = gen::big(n - 601); const RefKey &rk = rkey(i % 2); Bytes m = content(i % 4, n, "ds"); expect_sig(rk, m, n & 1, "length sweep"); Bytes sg; rk.ds.sign(m, sg); Bytes dsk = sub(rk.k.sk, 64, 2560), dpk = sub(rk.k.pk, 32, 1312), want = cat({sg, m});
        for (int al = 0; al < 2; al++) { mc::GBuf sm(2420 + n, n & 1), x(m), k(dsk); SizeBox L; k.readonly(); x.readonly(); if (al && n) memcpy(sm.p, m.data(), n); Call c; int rc = DIL(crypto_sign)(sm.p, L.ptr(), al ? sm.p : x.p, n, k.p); c.done("Dilithium crypto_sign"); sm.check("signed message"); if (rc || L.get() != 2420 + n || sm.bytes() != want) mc::fail("Dilithium crypto_sign%s of %zu bytes: rc %d, length %zu, or not signature||message", al ? " in place" : "", n, rc, L.get()); }
        for (int al = 0; al < 2; al++) { mc::GBuf sm(want, n & 1), o(want.size()), k(dpk); SizeBox L; k.readonly(); if (!al) sm.readonly(); Call c; int rc = DIL(crypto_sign_open)(al ? sm.p : o.p, L.ptr(), sm.p, want.size(), k.p); c.done("Dilithium crypto_sign_open"); sm.check("sm"); o.check("opened"); if (rc || L.get() != n || Bytes((al ? sm.p : o.p), (al ? sm.p : o.p) + n) != m) mc::fail("Dilithium crypto_sign_open%s of %zu bytes: rc %d length %zu", al ? " in place" : "", n, rc, L.get()); }
        if (n) { Bytes bad = xorb(want, 2420 + n / 2, 1); mc::GBuf sm(bad), o(bad.size()), k(dpk); SizeBox L; sm.readonly(); int rc = DIL(crypto_sign_open)(o.p, L.ptr(), sm.p, bad.size(), k.p); mc::transition(); if (!rc) mc::fail("Dilithium crypto_sign_open accepted an altered message"); if (n >= 4 && (Bytes(o.p, o.p + n) == m || Bytes(o.p, o.p + n) == sub(bad, 2420, n))) mc::fail("Dilithium crypto_sign_open released an unverified message"); if (dv(sg, sub(m, 0, n - 1), dpk) == 0) mc::fail("Dilithium accepted a truncated message"); }
        mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium key %lu message length %lu", (unsigned long)(i % 2), (unsigned long)(i / 2 > 600 ? gen::big(i / 2 - 601) : i / 2)); }});
static mc::Reg d2({"d_sign_many", "Dilithium: bit-exact signatures on an enumerated message set (rejection counts, hint counts and about 10^7 rounding arguments per second of signing)",
    [](int t) { rk_setup(4); return t ? 1500ull : 60ull; },
    [](uint64_t i) { const RefKey &rk = rkey(i % 4); for (int j = 0; j < 200; j++) { Bytes m = mc::prf(fmt("dm%lu", (unsigned long)(i * 200 + j)), 32 + j % 33); expect_sig(rk, m, j & 1, "message sweep"); } mc::domain(200 * 2048); mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium message block %lu of 200", (unsigned long)i); }, 120});
static mc::Reg d2b({"d_special", "Dilithium: messages and seeds in which every pair of positions takes every pair of 16 special values, and every leading/trailing run of zero or 0xFF bytes; bit-exact keys and signatures",
    [](int) { rk_setup(1); return 512ull + 512 + 256; },
    [](uint64_t i) { if (i < 1024) expect_sig(rkey(0), i < 512 ? special(i, 64) : runs(i - 512, 64, "d"), i & 1, "special message"); if (i >= 512) { Bytes seed = i < 1024 ? special(i - 512, 32) : runs(i - 1024, 32, "ds"), pk, sk; ref::dil::keygen(seed, pk, sk); mc::GBuf p(1312, i & 1), s(2560, i & 1), x(seed); x.readonly(); Call c; int rc = DIL(crypto_sign_keypair_seed)(p.p, s.p, x.p); c.done("Dilithium keypair"); p.check("pk"); s.check("sk"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("Dilithium key pair for seed %s differs from the specification (rc %d)", hex(seed).c_str(), rc); mc::state(mc::hash(pk)); } mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium special row %lu", (unsigned long)i); }});
static mc::Reg d3({"d_keys", "Dilithium: key generation from a covering array over the 32 seed bytes, every key then signs and verifies, bit-exact",
    [](int t) { return t ? 8192ull : 1024ull; },
    [](uint64_t i) { Bytes seed = oa((uint32_t)((i & 255) | (i >> 8) * 3 << 8), 32, i >> 8), pk, sk; ref::dil::keygen(seed, pk, sk); mc::GBuf p(1312, i & 1), s(2560, i & 1), x(seed); x.readonly(); Call c; int rc = DIL(crypto_sign_keypair_seed)(p.p, s.p, x.p); c.done("Dilithium keypair"); p.check("pk"); s.check("sk"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("Dilithium key pair for seed %s differs from the specification (rc %d)", hex(seed).c_str(), rc); mc::state(mc::hash(pk)); Bytes m = content(0, i % 80, "dk"), want; ref::dil::Signer(sk).sign(m, want); if (dsig(m, sk, i & 1) != want) mc::fail("Dilithium signature under seed %s differs from the specification", hex(seed).c_str()); if (dv(want, m, pk)) mc::fail("Dilithium verification rejects under seed %s", hex(seed).c_str()); mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium seed row %lu", (unsigned long)i); }});
// Signatures under a public key with t1 = 0: any response z and any hint are valid once the challenge is recomputed, so
// acceptance can be explored over all of them.
struct ZSig { Bytes rho, pk; ref::dil::Mat A; Bytes tr; ZSig() { rho = mc::prf("zrho", 32); pk = cat({rho, Bytes(1280, 0)}); A = ref::dil::expandA(rho); tr = ref::shake256(pk, 64); }
    Bytes make(const Bytes &msg, const ref::dil::Vec &z, const std::array<std::array<int, 256>, 4> &h) const { using namespace ref; using namespace ref::dil; Bytes mu = shake256(cat({tr, msg}), 64), w1b; for (int i = 0; i < 4; i++) { Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = dil::add(t, mul(A.a[i][j], z[j])); Poly w1; for (int n = 0; n < 256; n++) w1[n] = usehint(t[n], h[i][n]); putbits(w1b, w1, 6, [](int32_t v) { return (uint32_t)v; }); } return pack_sig(shake256(cat({mu, w1b}), 32), z, h); } };
static std::unique_ptr<ZSig> zs;
typedef std::array<std::array<int, 256>, 4> Hint;
static ref::dil::Vec zvec(int seed) { ref::dil::Vec z; Bytes b = mc::prf(fmt("zv%d", seed), 4096); for (int i = 0; i < 4; i++) for (int n = 0; n < 256; n++) { uint32_t v; memcpy(&v, &b[4 * (256 * i + n)], 4); z[i][n] = (int32_t)(v % (2 * (131072 - 78) - 1)) - (131072 - 79); } return z; }
static void zcheck(const Bytes &sig, const Bytes &msg, bool want, const std::string &what) { int rc = dv(sig, msg, zs->pk); if ((rc == 0) != want) mc::fail("%s: Dilithium verification %s, the specification %s", what.c_str(), rc ? "rejects" : "accepts", want ? "accepts" : "rejects"); }
static mc::Reg d4({"d_bounds", "Dilithium verification: every one of the 1024 response coefficients at +-(gamma1-beta-1) (valid), +-(gamma1-beta), +-(gamma1-1), gamma1 (invalid), all else valid",
    [](int) { zs.reset(new ZSig); return 1024ull; },
    [](uint64_t i) { int p = i / 256, n = i % 256; Hint h; for (auto &x : h) x.fill(0); Bytes msg = content(0, i % 70, "zb"); const int B = 131072 - 78; for (int v : {B - 1, -(B - 1), B, -B, B + 1, -(B + 1), 131071, -131071, 131072}) { ref::dil::Vec z = zvec(i % 8); z[p][n] = v; zcheck(zs->make(msg, z, h), msg, v < B && v > -B, fmt("coefficient %lu = %d", (unsigned long)i, v)); } mc::trace(); },
    [](uint64_t i) { return fmt("response coefficient %lu at its bounds", (unsigned long)i); }});
static mc::Reg d5({"d_hints", "Dilithium verification: every hint weight 0..80 in each distribution over the four polynomials (4 patterns x position patterns), all encodings violating one rule, weights above 80, all 4-tuples of counters over 14 values with ascending indices",
    [](int) { zs.reset(new ZSig); return 81ull * 12 + 600 + 3 * 14 * 14; },
    [](uint64_t i) { if (i >= 81 * 12 + 600) { // counters and indices by hand: the signature buffer ends right after the last counter
            static const int C[14] = {0, 1, 40, 79, 80, 81, 82, 83, 84, 85, 100, 200, 254, 255}; int q = (int)(i - 81 * 12 - 600), c0 = C[q % 14], c1 = C[q / 14 % 14], pat = q / 196; Bytes m = content(0, 33, "zh"); Hint h; for (auto &x : h) x.fill(0); static Bytes base = zs->make(m, zvec(1), h); static ref::dil::Verifier vf(zs->pk); size_t H = 32 + 4 * 576;
            for (int c2 : C) for (int c3 : C) { Bytes v = base; for (int k = 0; k < 80; k++) v[H + k] = pat == 0 ? k : pat == 1 ? k + 1 : 176 + k; v[H + 80] = c0; v[H + 81] = c1; v[H + 82] = c2; v[H + 83] = c3; if (c0 <= c1 && c1 <= c2 && c2 <= c3 && c3 <= 80) for (int k = c3; k < 80; k++) v[H + k] = 0; zcheck(v, m, vf.ok(v, m), fmt("hint counters %d,%d,%d,%d", c0, c1, c2, c3)); }
            mc::trace(); return; }
        Bytes msg = content(0, 1 + i % 64, "zh"); ref::dil::Vec z = zvec(i % 16); Hint h; for (auto &x : h) x.fill(0);
        if (i < 81 * 12) { int w = i % 81, pat = i / 81; int left = w; for (int k = 0; k < w; k++) { int p = pat % 4 == 0 ? 0 : pat % 4 == 1 ? 3 : pat % 4 == 2 ? k % 4 : (k * 4 / 81); int pos = pat / 4 == 0 ? k : pat / 4 == 1 ? 255 - k : (k * 37 + 11) % 256; h[p][pos] = 1; left--; } int tot = 0; for (auto &x : h) for (int v : x) tot += v; Bytes sig = zs->make(msg, z, h); zcheck(sig, msg, true, fmt("%d hints (pattern %d)", tot, pat)); for (auto &v : dil_hint_variants(sig)) { ref::dil::Verifier *V = nullptr; (void)V; int k = 0; const uint8_t *hb = v.data() + 32 + 4 * 576; bool ok = true; for (int q = 0; q < 4 && ok; q++) { int e = hb[80 + q]; if (e < k || e > 80) { ok = false; break; } for (int j = k; j < e; j++) if (j > k && hb[j] <= hb[j - 1]) ok = false; k = e; } if (ok) for (int j = k; j < 80; j++) if (hb[j]) ok = false; if (!ok) zcheck(v, msg, false, fmt("hint encoding variant of %d hints (pattern %d)", tot, pat)); else { // still well-formed: the hint vector itself differs, so the challenge must fail
                    static ref::dil::Verifier vf(zs->pk); zcheck(v, msg, vf.ok(v, msg), "hint counter variant"); } } }
        else { // weights above the bound, encoded by hand: counters beyond 80 must be refused before any index is used
            int q = (int)(i - 81 * 12); for (int w = 0; w < 80; w++) h[q % 4][(w * 3 + q) % 256] = 1; Bytes sig = zs->make(msg, z, h); size_t H = 32 + 4 * 576; int val = 81 + q % 175; for (int from = 0; from < 4; from++) { Bytes v = sig; for (int k = from; k < 4; k++) v[H + 80 + k] = val; zcheck(v, msg, false, fmt("hint counter %d", val)); if (from < 3) { v = sig; v[H + 80 + from] = val; zcheck(v, msg, false, fmt("hint counter %d in polynomial %d", val, from)); } } }
        mc::trace(); },
    [](uint64_t i) { return fmt("hint case %lu", (unsigned long)i); }});
static mc::Reg d6({"d_verify", "Dilithium verification: every bit of a valid signature and of the public key changed, every challenge bit wrong with consistent response, every signature length, under three message lengths",
    [](int) { rk_setup(1); return 2420ull + 1312 + 256 + 2; },
    [](uint64_t i) { const RefKey &rk = rkey(0); Bytes pk = sub(rk.k.pk, 32, 1312); static Bytes m, s; if (s.empty()) { m = content(0, 100, "dvv"); s = rk.dsign(m); } if (i < 2420) { for (int b = 0; b < 8; b++) if (!dv(xorb(s, i, 1 << b), m, pk)) mc::fail("accepted with signature byte %lu bit %d changed", (unsigned long)i, b); } else if (i < 3732) { for (int b = 0; b < 8; b++) if (!dv(s, m, xorb(pk, i - 2420, 1 << b))) mc::fail("accepted with public key byte %lu bit %d changed", (unsigned long)(i - 2420), b); } else if (i < 3988) { Bytes x; if (DilMut::make(rk.ds, content(0, i % 90, "ch"), 0, (int)(i - 3732), 0, x) && !dv(x, content(0, i % 90, "ch"), pk)) mc::fail("accepted a signature with challenge bit %lu wrong", (unsigned long)(i - 3732)); } else if (i == 3988) { for (size_t n = 0; n < 2600; n++) { Bytes x = s; x.resize(n, 0); if ((dv(x, m, pk) == 0) != (n == 2420)) mc::fail("signature length %zu misjudged", n); } for (size_t v : {(size_t)2420 + ((size_t)1 << 32), (size_t)-2, ((size_t)1 << 63) + 2420, (size_t)2420 + 65536, (size_t)2420 + 256}) if (!dv(s, m, pk, v)) mc::fail("signature length %zu accepted", v); } else { for (size_t n = 0; n < 2421; n++) { mc::GBuf sm(cat({s, m})), o(2600), k(pk); SizeBox L; sm.readonly(); int rc = DIL(crypto_sign_open)(o.p, L.ptr(), sm.p, n, k.p); mc::transition(); if (!rc) mc::fail("crypto_sign_open accepted %zu bytes", n); if (!o.all(0xA5) && n < 2420) mc::fail("crypto_sign_open of %zu bytes wrote output", n); } }
        mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium verification case %lu", (unsigned long)i); }});
static mc::Reg d7({"d_foreign_keys", "Dilithium verification and signing under public and secret keys with extreme coefficients (t1 all 0/1023/alternating, unusual rho), verdicts and bytes against the specification",
    [](int) { rk_setup(1); return 300ull; },
    [](uint64_t i) { Bytes pk = cat({mc::prf(fmt("fr%lu", (unsigned long)i), 32), Bytes(1280, (uint8_t)(i % 3 == 0 ? 0xFF : i % 3 == 1 ? 0x55 : i))}); Bytes m = content(0, i % 65, "fk"); // random z, random c
        Hint h; for (auto &x : h) x.fill(0); for (int k = 0; k < (int)(i % 81); k++) h[k % 4][(k * 7) % 256] = 1; ref::dil::Vec z = zvec(100 + i % 32); Bytes s = ref::dil::pack_sig(mc::prf("c", 32), z, h); ref::dil::Verifier v(pk); if ((dv(s, m, pk) == 0) != v.ok(s, m)) mc::fail("verdict under an unusual public key differs");
        Bytes sk = rkey(0).k.sk; sk = sub(sk, 64, 2560); for (int k = 0; k < 32; k++) sk[k] = pk[k]; Bytes kk = mc::prf("kk" + std::to_string(i), 32); for (int k = 0; k < 32; k++) sk[32 + k] = kk[k]; ref::dil::Signer S(sk); Bytes want; S.sign(m, want); if (dsig(m, sk, i & 1) != want) mc::fail("signature under a secret key with foreign rho/key differs from the specification"); mc::trace(); },
    [](uint64_t i) { return fmt("foreign key %lu", (unsigned long)i); }});
// Witnesses of rare boundary events, found with the reference by search; the events are re-established (and counted) at every run.
static const int RQ[] = {2009, 3901, 1871, 1942, 2688, 4772, 2382, 5020, 5795, 3545, 6730, 3071, 6907, 6173, 3134, 3591, 7300, 9098, 8077, 9226, 9682, 4398, 5328, 6137, 9413, 6401, 6681, 6985, 10445, 10644, 10997, 6879, 8238, 11296, 8807, 11766};
static const int RH[] = {5755, 33037, 56032}; static const int RT[] = {8561, 20012, 27242, 25465, 33790, 41152, 40670, 46436, 38429, 55323, 67230, 67055, 74428, 74719, 71005, 86808, 89791};
static Bytes with_secrets(const Bytes &sk, int s1, int s2, int t0, int dt, int onlypoly) { using namespace ref::dil; SkU u = unpack_sk(sk); Bytes o(sk.begin(), sk.begin() + 128); auto pat = [](int m, int i, int n) { return m == 1 ? 2 : m == 2 ? -2 : m == 3 ? (n & 1 ? 2 : -2) : m == 4 ? (n < 128 ? 2 : -2) : m == 5 ? 0 : ((i + n) % 5) - 2; }; for (int v = 0; v < 2; v++) for (int i = 0; i < 4; i++) { Poly p = v ? u.s2[i] : u.s1[i]; int m = v ? s2 : s1; if (m) for (int n = 0; n < 256; n++) p[n] = pat(m, i, n); putbits(o, p, 3, [](int32_t x) { return (uint32_t)(2 - x); }); } for (int i = 0; i < 4; i++) { Poly p = u.t0[i]; if (t0 != 99999) for (int n = 0; n < 256; n++) p[n] = onlypoly >= 0 && i != onlypoly ? 0 : t0 + (n % 2 ? 0 : dt); putbits(o, p, 13, [](int32_t x) { return (uint32_t)(4096 - x); }); } return o; }
static void evs(uint32_t ev) { static const char *n[] = {"|z| at its bound", "|z| one below", "|w0| at its bound", "|w0| one below", "|c t0| at its bound", "|c t0| above its bound", "exactly 80 hints", "81 hints", "low part -gamma2, high part not 0", "low part -gamma2, high part 0", "low part gamma2", "low part gamma2+1", "low part -gamma2-1"}; for (int b = 0; b < 13; b++) if (ev >> b & 1) mc::outcome(n[b]); }
static void rare_sign(const Bytes &sk, const Bytes &m, uint32_t need, const std::string &what) { ref::dil::Signer S(sk); ref::dil::SignTrace t; ref::dil::SignOpt o; o.max_attempts = 200; Bytes want; if (!S.sign(m, want, &t, &o)) return; if ((t.ev & need) != need) mc::fail("harness: witness %s no longer shows its event", what.c_str()); evs(t.ev); if (t.attempts > 1) mc::outcome("with rejections"); Bytes got = dsig(m, sk, m.size() & 1); if (got != want) mc::fail("%s: Dilithium signature differs from the specification (%d attempts, events %x)", what.c_str(), t.attempts, t.ev); }
static mc::Reg d8({"d_rare", "Dilithium: witnesses of rare events: matrix samples equal to 0, q-2, q-1, q, q+1, 2^23-1 (36 seeds); low part exactly -gamma2 with high part 0; c*t0 at and above its bound (17 messages x 2 signs and extremes); secret vectors of extreme and patterned values x messages",
    [](int) { rk_setup(1); return 36ull + 3 + 34 + 12 + 7 * 7 * 6; },
    [](uint64_t i) { Bytes base = sub(rkey(0).k.sk, 64, 2560);
        if (i < 36) { Bytes seed = mc::prf(fmt("rq%d", RQ[i]), 32), pk, sk; ref::dil::keygen(seed, pk, sk); mc::GBuf p(1312), s(2560), x(seed); Call c; int rc = DIL(crypto_sign_keypair_seed)(p.p, s.p, x.p); c.done("Dilithium keypair"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("Dilithium key pair for seed %s (boundary value in matrix sampling) differs from the specification", hex(seed).c_str()); Bytes m = content(0, 40, "rq"), want; ref::dil::Signer(sk).sign(m, want); if (dsig(m, sk, i & 1) != want) mc::fail("signature under such a key differs"); if (dv(want, m, pk)) mc::fail("signature under such a key is refused"); }
        else if ((i -= 36) < 3) rare_sign(base, mc::prf(fmt("eh%d", RH[i]), 32), 0x200, "low part -gamma2, high part 0");
        else if ((i -= 3) < 34) { int sg = i & 1 ? -1 : 1; rare_sign(with_secrets(base, 0, 0, sg * 3802, sg * 14, 1), mc::prf(fmt("et%d", RT[i / 2]), 32), i & 1 ? 0 : 0x10, "c*t0 at its bound"); }
        else if ((i -= 34) < 12) { static const int m[4] = {1486, 2147, 2926, 750}, v[3] = {4096, -4095, 3968}; rare_sign(with_secrets(base, 0, 0, v[i / 4], 0, 1), mc::prf(fmt("et%d", m[i % 4]), 32), 0, "c*t0 above its bound"); }
        else { i -= 12; int s1 = i % 7, s2 = i / 7 % 7, k = i / 49; static const int t[6] = {99999, 0, 4096, -4095, 1, 2000}; for (int m = 0; m < 2; m++) rare_sign(with_secrets(base, s1, s2, t[k], 0, k == 0 || k == 1 ? -1 : k % 4), content(0, 20 + m, "xs"), 0, fmt("secret patterns %d/%d/%d", s1, s2, k)); }
        mc::trace(); },
    [](uint64_t i) { return fmt("rare event witness %lu", (unsigned long)i); }, 120});
static mc::Reg d9({"d_usehint", "Dilithium verification: responses (8192 quick, 65536 thorough) whose commitment has coefficients at the edges of the rounding function (low part -1, 0, 1, +-gamma2 and neighbours, wrap-around), with hints placed on exactly those coefficients",
    [](int t) { zs.reset(new ZSig); return t ? 65536ull : 8192ull; },
    [](uint64_t i) { using namespace ref::dil; Bytes msg = content(0, 10, "uh"); Vec z = zvec(5000 + (int)i); Hint h; for (auto &x : h) x.fill(0); int cnt = 0; for (int pass = 0; pass < 2; pass++) for (int r = 0; r < 4; r++) { Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = ref::dil::add(t, mul(zs->A.a[r][j], z[j])); for (int n = 0; n < 256 && cnt < 80; n++) { int32_t a1, a0; decompose(t[n], a1, a0); bool edge = (a0 >= -1 && a0 <= 1) || a0 >= G2 - 1 || a0 <= -G2 + 1, wrap = a1 == 0 || a1 == 43; if (pass == 0 ? edge : wrap && !h[r][n]) { h[r][n] = 1; cnt++; if (edge) mc::outcome(a0 == 0 ? "hint at low part 0" : a0 == 1 ? "hint at low part 1" : a0 == -1 ? "hint at low part -1" : a0 > 0 ? "hint at low part gamma2" : "hint at low part -gamma2"); } } }
        Bytes sig = zs->make(msg, z, h); zcheck(sig, msg, true, fmt("hints on %d rounding edges", cnt)); mc::trace(); },
    [](uint64_t i) { return fmt("rounding edges of response %lu", (unsigned long)i); }});
static mc::Reg d_f({"d_folds", "Dilithium verification: challenges that differ from the true one in two bytes (every pair swapped or changed alike), rotated or inverted, each with the response belonging to it",
    [](int) { rkey(0); return (uint64_t)nfolds(32); },
    [](uint64_t i) { if (i >= 992 && i < 1488 && !mc::tier) return; const RefKey &rk = rkey(0); Bytes m = content(0, i % 90, "df"), x; if (DilMut::make(rk.ds, m, 0, 0, 0, x, [=](Bytes b) { return fold(b, i); }) && !dv(x, m, sub(rk.k.pk, 32, 1312))) mc::fail("accepted a signature whose challenge is altered as %lu", (unsigned long)i); mc::trace(); },
    [](uint64_t i) { return fmt("Dilithium challenge alteration %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C13 SPHINCS+
struct SphKey { Bytes pk, sk; }; static std::vector<SphKey> sks;
static void sph_setup(int n) { while ((int)sks.size() < n) { SphKey k; ref::sph::keygen(mc::prf(fmt("sph%zu", sks.size()), 96), k.pk, k.sk); sks.push_back(k); } }
static int sv(const Bytes &sig, const Bytes &m, const Bytes &pk, size_t n = (size_t)-1) { mc::GBuf s(sig), x(m), k(pk); s.readonly(); x.readonly(); k.readonly(); Call c; int rc = SPH(crypto_sign_verify)(s.p, n == (size_t)-1 ? sig.size() : n, x.p, m.size(), k.p); c.done("SPHINCS+ verify"); mc::state(mc::mix(mc::hash(sig, mc::hash(m)), mc::hash(pk, rc))); mc::outcome(rc ? "sphincs rejected" : "sphincs accepted"); return rc; }
static Bytes ssig(const Bytes &m, const Bytes &sk, bool left) { mc::GBuf s(49856, left), x(m, left), k(sk, left); SizeBox L; x.readonly(); k.readonly(); Call c; int rc = SPH(crypto_sign_signature)(s.p, L.ptr(), x.p, m.size(), k.p); c.done("SPHINCS+ sign"); s.check("SPHINCS+ signature"); if (rc) mc::fail("SPHINCS+ signing returned %d", rc); if (L.get() != 49856) mc::fail("SPHINCS+ signing reported %zu bytes", L.get()); mc::state(mc::hash(s.p, 64)); return s.bytes(); }
static void expect_ssig(const SphKey &k, const Bytes &m, const Bytes &opt, bool left, const char *what) { env::reset("sph"); env::rng.prefix = opt; Bytes s = ssig(m, k.sk, left); if (sub(s, 0, 32) != ref::sph::msg_R(k.sk, opt, m)) mc::fail("%s: SPHINCS+ randomizer is not PRF_msg(key, OS bytes, message) for a %zu-byte message", what, m.size()); if (!ref::sph::verify(s, m, k.pk)) mc::fail("%s: SPHINCS+ signature of %zu-byte message %s is not valid by the specification", what, m.size(), hex(m).c_str()); if (sv(s, m, k.pk)) mc::fail("%s: SPHINCS+ verification rejects a valid signature of a %zu-byte message", what, m.size()); }
// messages chosen (by the model's digest function) so that together they select as many few-time-tree leaves as possible
struct Pick { uint32_t ctr; }; static std::vector<Pick> picks; static size_t covered;
static Bytes pick_msg(uint32_t c) { Bytes m(4 + c % 61, 0x5A); memcpy(m.data(), &c, 4); return m; } static Bytes pick_opt(uint32_t c) { Bytes o(32, 0x3C); memcpy(o.data() + 8, &c, 4); return o; }
static uint64_t pick_setup(int n) { sph_setup(1); picks.clear(); std::vector<uint8_t> seen(35 * 512, 0); uint32_t ctr = 0; covered = 0; int cand = n > 300 ? 700 : 1200; for (int k = 0; k < n; k++) { int best = -1; uint32_t bc = 0; for (int q = 0; q < cand; q++, ctr++) { Bytes m = pick_msg(ctr); auto d = ref::sph::digest(ref::sph::msg_R(sks[0].sk, pick_opt(ctr), m), sks[0].pk, m); int g = 0; for (int i = 0; i < 35; i++) g += !seen[i * 512 + d.fors[i]]; if (g > best) { best = g; bc = ctr; } } Bytes m = pick_msg(bc); auto d = ref::sph::digest(ref::sph::msg_R(sks[0].sk, pick_opt(bc), m), sks[0].pk, m); for (int i = 0; i < 35; i++) { covered += !seen[i * 512 + d.fors[i]]; seen[i * 512 + d.fors[i]] = 1; } picks.push_back({bc}); } return n; }
static mc::Reg p1({"s_sign_cover", "SPHINCS+: signing and verification on messages chosen to reach as many (few-time tree, leaf) pairs as possible, every hypertree leaf of every layer; each signature checked by the specification's verifier",
    [](int t) { return pick_setup(t ? 2500 : 360); },
    [](uint64_t i) { uint32_t c = picks[i].ctr; expect_ssig(sks[0], pick_msg(c), pick_opt(c), i & 1, "leaf cover"); mc::domain(35); if (i == 0) mc::sample(fmt("%zu of 17920 (few-time tree, leaf) pairs reached by %zu signatures", covered, picks.size())); mc::trace(); },
    [](uint64_t i) { return fmt("SPHINCS+ leaf-cover message %u", picks.size() > i ? picks[i].ctr : 0); }});
static mc::Reg p2({"s_lengths", "SPHINCS+: message lengths 0..400 (every length at thorough, every boundary of the hash rate at quick) and around every power of two to 2^20, detached and combined forms",
    [](int t) { sph_setup(2); return (t ? 401ull : 100ull) + gen::NBIG; },
    [](uint64_t i) { static const int q[] = {0, 1, 2, 31, 32, 33, 39, 40, 41, 63, 64, 65, 70, 71, 72, 73, 100, 103, 104, 105, 135, 136, 137, 175, 176, 177, 207, 208, 209, 239, 240, 241, 271, 272, 273, 300, 311, 312, 313, 343, 344, 345, 400}; size_t n, tot = mc::tier ? 401 : 100; if (i >= tot) n = gen::big(i - tot); else if (mc::tier) n = i; else if (i < 43) n = q[i]; else n = (i - 43) * 7 + 3; const SphKey &k = sks[i % 2]; Bytes m = content(i % 4, n, "sl"), opt = mc::prf(fmt("so%lu", (unsigned long)i), 32); env::reset("x"); env::rng.prefix = opt; mc::GBuf sm(49856 + n, i & 1), x(m), sk(k.sk); x.readonly(); sk.readonly(); SizeBox L; Call c; int rc = SPH(crypto_sign)(sm.p, L.ptr(), x.p, n, sk.p); c.done("SPHINCS+ crypto_sign"); sm.check("signed message"); if (rc || L.get() != 49856 + n || sub(sm.bytes(), 49856, n) != m) mc::fail("SPHINCS+ crypto_sign of %zu bytes: rc %d, length %zu, or message not appended", n, rc, L.get()); Bytes s = sub(sm.bytes(), 0, 49856); if (sub(s, 0, 32) != ref::sph::msg_R(k.sk, opt, m) || !ref::sph::verify(s, m, k.pk)) mc::fail("SPHINCS+ signature of %zu bytes is not valid by the specification", n);
        mc::GBuf o(49856 + n, i & 1), pk(k.pk); SizeBox L2; sm.readonly(); pk.readonly(); Call c2; rc = SPH(crypto_sign_open)(o.p, L2.ptr(), sm.p, 49856 + n, pk.p); c2.done("SPHINCS+ crypto_sign_open"); o.check("opened"); if (rc || L2.get() != n || Bytes(o.p, o.p + n) != m) mc::fail("SPHINCS+ crypto_sign_open of %zu bytes: rc %d length %zu", n, rc, L2.get());
        Bytes all = sm.bytes(); for (int z = 0; z < 3; z++) { Bytes b = all; if (z == 0) b[40 + i] ^= 1; else if (z == 1 && n) b[49856 + n - 1] ^= 0x80; else b.push_back(0); mc::GBuf s2(b), o2(b.size()); SizeBox L3; s2.readonly(); rc = SPH(crypto_sign_open)(o2.p, L3.ptr(), s2.p, b.size(), pk.p); mc::transition(); if (!rc) mc::fail("SPHINCS+ crypto_sign_open accepted an altered signed message (variant %d, %zu bytes)", z, n); if (L3.get() != 0) mc::fail("SPHINCS+ crypto_sign_open failed but reported length %zu", L3.get()); if (n >= 4 && (Bytes(o2.p, o2.p + n) == m)) mc::fail("SPHINCS+ crypto_sign_open released an unverified message"); }
        mc::trace(); },
    [](uint64_t i) { return fmt("SPHINCS+ length case %lu", (unsigned long)i); }});
static std::vector<Bytes> ref_sigs; static std::vector<Bytes> ref_msgs;
static uint64_t sver_setup(int) { sph_setup(1); if (ref_sigs.empty()) for (int i = 0; i < 2; i++) { Bytes m = content(0, i ? 200 : 17, "sv"); ref_msgs.push_back(m); ref_sigs.push_back(ref::sph::sign(sks[0].sk, mc::prf("o", 32), m)); } return 0; }
static mc::Reg p3({"s_verify", "SPHINCS+ verification of specification-made signatures: every one of the 1558 nodes altered (one bit quick, every byte thorough), public key and message bits, every signature length around the right one",
    [](int t) { sver_setup(t); return 1558ull + 64 + 17 + 1; },
    [](uint64_t i) { const Bytes &s = ref_sigs[0], &m = ref_msgs[0], &pk = sks[0].pk; if (i == 0) for (int q = 0; q < 2; q++) if (sv(ref_sigs[q], ref_msgs[q], pk)) mc::fail("SPHINCS+ verification rejects a signature made by the specification");
        if (i < 1558) { for (int b = 0; b < 32; b++) if (mc::tier || b == (int)(i * 7 % 32) || b == 31) if (!sv(xorb(s, 32 * i + b, 1 << (i + b) % 8), m, pk)) mc::fail("accepted with byte %d of node %lu changed", b, (unsigned long)i); } else if (i < 1622) { for (int b = 0; b < 8; b++) if (!sv(s, m, xorb(pk, i - 1558, 1 << b))) mc::fail("accepted with public key byte %lu changed", (unsigned long)(i - 1558)); } else if (i < 1639) { for (int b = 0; b < 8; b++) if (!sv(s, xorb(m, i - 1622, 1 << b), pk)) mc::fail("accepted with message byte %lu changed", (unsigned long)(i - 1622)); } else { for (size_t n : {(size_t)0, (size_t)1, (size_t)32, (size_t)49824, (size_t)49855, (size_t)49857, (size_t)49888, (size_t)49856 * 2, (size_t)49856 + 65536}) { Bytes x = s; x.resize(n, 0); if (!sv(x, m, pk)) mc::fail("accepted a signature of %zu bytes", n); } for (size_t n : {(size_t)49856 + ((size_t)1 << 32), (size_t)-2, (size_t)1 << 63}) if (!sv(s, m, pk, n)) mc::fail("accepted signature length %zu", n); for (size_t n = 0; n < 17; n++) if (!sv(s, sub(m, 0, n), pk)) mc::fail("accepted a truncated message"); Bytes e = m; e.push_back(0); if (!sv(s, e, pk)) mc::fail("accepted an extended message"); for (size_t n = 0; n <= 49856; n += (n < 49800 ? 64 : 1)) { if (n == 49856) continue; mc::GBuf g(sub(s, 0, n)), o(n), k(pk); SizeBox L; g.readonly(); int rc = SPH(crypto_sign_open)(o.p, L.ptr(), g.p, n, k.p); mc::transition(); if (!rc || L.get() != 0) mc::fail("crypto_sign_open of %zu bytes: rc %d length %zu", n, rc, L.get()); } }
        mc::trace(); },
    [](uint64_t i) { return fmt("SPHINCS+ verification case %lu", (unsigned long)i); }});
static mc::Reg p4({"s_roots", "SPHINCS+ verification: signatures that reach the true root while the public key's root differs in one bit, or in two bytes swapped or changed alike, rotated or inverted",
    [](int t) { sph_setup(1); return t ? 256ull + nfolds(32) : 64ull + 48; },
    [](uint64_t i) { size_t nb = mc::tier ? 256 : 64; if (i >= nb) { size_t j = mc::tier ? i - nb : (i - nb) * 31 + 5; Bytes pk, s, m = content(0, 40, "sf"); sph_wrong_root(sks[0].sk, m, Bytes(32, 1), 0, pk, s, [=](Bytes b) { return fold(b, j); }); if (!sv(s, m, pk)) mc::fail("accepted although the root is altered as %zu", j); mc::trace(); return; } int bit = mc::tier ? i : i * 4 + i % 4; Bytes pk, s; Bytes m = content(0, 40, "sr"); sph_wrong_root(sks[0].sk, m, Bytes(32, 1), bit, pk, s); if (!sv(s, m, pk)) mc::fail("accepted although root bit %d differs", bit); mc::trace(); },
    [](uint64_t i) { return fmt("root bit variant %lu", (unsigned long)i); }});
static mc::Reg p5({"s_keys", "SPHINCS+: key generation from a covering array over the 96 seed bytes",
    [](int t) { return t ? 4096ull : 512ull; },
    [](uint64_t i) { Bytes seed = oa((uint32_t)((i & 255) | (i >> 8) * 3 << 8), 96, i >> 8), pk, sk; ref::sph::keygen(seed, pk, sk); mc::GBuf p(64, i & 1), s(128, i & 1), x(seed); x.readonly(); Call c; int rc = SPH(crypto_sign_seed_keypair)(p.p, s.p, x.p); c.done("SPHINCS+ keypair"); p.check("pk"); s.check("sk"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("SPHINCS+ key pair for seed %s differs from the specification (rc %d)", hex(seed, 96).c_str(), rc); mc::state(mc::hash(pk)); mc::trace(); },
    [](uint64_t i) { return fmt("SPHINCS+ seed row %lu", (unsigned long)i); }});
static mc::Reg p6({"s_exact", "SPHINCS+: complete signatures compared byte for byte with the specification's signer; reported sizes",
    [](int t) { sph_setup(3); return t ? 256ull : 32ull; },
    [](uint64_t i) { const SphKey &k = sks[i % 3]; Bytes m = content(i % 4, i * 5, "sx"), opt = mc::prf(fmt("sx%lu", (unsigned long)i), 32); env::reset("x"); env::rng.prefix = opt; Bytes s = ssig(m, k.sk, i & 1), w = ref::sph::sign(k.sk, opt, m); if (s != w) { size_t j = 0; while (s[j] == w[j]) j++; mc::fail("SPHINCS+ signature differs from the specification at byte %zu", j); } if (SPH(crypto_sign_bytes)() != 49856 || SPH(crypto_sign_secretkeybytes)() != 128 || SPH(crypto_sign_publickeybytes)() != 64 || SPH(crypto_sign_seedbytes)() != 96) mc::fail("reported SPHINCS+ sizes are wrong"); mc::trace(); },
    [](uint64_t i) { return fmt("SPHINCS+ exact case %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C14 Ed25519
static Bytes esign(const Bytes &m, const Bytes &sk, bool left) { mc::GBuf sm(64 + m.size(), left), x(m, left), k(sk, left); LenBox L; x.readonly(); k.readonly(); Call c; int rc = crypto_sign_ed25519_tweet(sm.p, L.ptr(), x.p, m.size(), k.p); c.done("Ed25519 sign"); sm.check("Ed25519 signed message"); if (rc || L.get() != 64 + m.size()) mc::fail("Ed25519 signing: rc %d, length %llu", rc, L.get()); mc::state(mc::hash(sm.p, 64)); return sm.bytes(); }
static int eopen(const Bytes &sm, const Bytes &pk, Bytes &m, bool left) { mc::GBuf s(sm, left), k(pk, left), o(sm.size(), left); LenBox L; s.readonly(); k.readonly(); Call c; int rc = crypto_sign_ed25519_tweet_open(o.p, L.ptr(), s.p, sm.size(), k.p); c.done("Ed25519 open"); o.check("Ed25519 opened"); mc::state(mc::mix(mc::hash(sm), mc::hash(pk, rc))); mc::outcome(rc ? "ed25519 rejected" : "ed25519 accepted"); if (!rc) { if (L.get() != sm.size() - 64) mc::fail("Ed25519 open reported length %llu for %zu bytes", L.get(), sm.size()); m = Bytes(o.p, o.p + L.get()); } return rc; }
static void ecompare(const Bytes &sm, const Bytes &pk, bool left, const std::string &what) { bool want = sm.size() >= 64 && ref::ed::verify(sub(sm, 0, 64), sub(sm, 64, sm.size() - 64), pk); Bytes m; int rc = eopen(sm, pk, m, left); if ((rc == 0) != want) mc::fail("%s: Ed25519 open %s (rc %d), strict verification %s", what.c_str(), rc ? "rejects" : "accepts", rc, want ? "accepts" : "rejects"); if (!rc && m != sub(sm, 64, sm.size() - 64)) mc::fail("%s: Ed25519 open returned a different message", what.c_str()); mc::outcome(want ? "model accepts" : "model rejects"); }
static mc::Reg e1({"e_sign", "Ed25519: every message length 0..1100 and lengths around every power of two to 2^20 x key covering array, bit-exact RFC 8032 signatures, opened again, one altered bit each rejected",
    [](int) { return 1101ull + gen::NBIG; },
    [](uint64_t i) { size_t n = i > 1100 ? gen::big(i - 1101) : i; Bytes seed = oa((uint32_t)((i & 255) | (i >> 8) * 3 << 8), 32), pk, sk; ref::ed::keygen(seed, pk, sk); mc::GBuf p(32), s(64), x(seed); Call c; int rc = crypto_sign_keypair_seed(p.p, s.p, x.p); c.done("Ed25519 keypair"); p.check("pk"); s.check("sk"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("Ed25519 key pair for seed %s differs from RFC 8032", hex(seed).c_str()); Bytes m = content(i % 4, n, "es"); Bytes sm = esign(m, sk, i & 1); Bytes want = cat({ref::ed::sign(m, sk), m}); if (sm != want) mc::fail("Ed25519 signature of a %lu-byte message under seed %s differs from RFC 8032", (unsigned long)n, hex(seed).c_str()); ecompare(sm, pk, i & 1, "round trip"); ecompare(flip(sm, (i * 131) % (sm.size() * 8)), pk, !(i & 1), "one bit changed"); mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 message length %lu", (unsigned long)(i > 1100 ? gen::big(i - 1101) : i)); }});
static mc::Reg e2({"e_many", "Ed25519: covering array over seed and message bytes (every byte value at every position), bit-exact",
    [](int t) { return t ? 65536ull : 6144ull; },
    [](uint64_t i) { Bytes a = oa((uint32_t)((i & 255) | (i >> 8) * 3 << 8), 96), seed = sub(a, 0, 32), m = sub(a, 32, 64), pk, sk; ref::ed::keygen(seed, pk, sk); if (esign(m, sk, i & 1) != cat({ref::ed::sign(m, sk), m})) mc::fail("Ed25519 signature differs from RFC 8032 on row %lu", (unsigned long)i); ecompare(cat({ref::ed::sign(m, sk), m}), pk, i & 1, "row"); mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 row %lu", (unsigned long)i); }});
static mc::Reg e2b({"e_special", "Ed25519: seeds and messages in which every pair of positions takes every pair of 16 special values, and every leading/trailing run of zero or 0xFF bytes; bit-exact keys and signatures, opened again",
    [](int) { return 512ull + 768; },
    [](uint64_t i) { Bytes a = i < 512 ? special(i, 96) : runs(i - 512, 96, "e"), seed = sub(a, 0, 32), m = sub(a, 32, 64), pk, sk; ref::ed::keygen(seed, pk, sk); mc::GBuf p(32), s(64), x(seed); Call c; int rc = crypto_sign_keypair_seed(p.p, s.p, x.p); c.done("Ed25519 keypair"); p.check("pk"); s.check("sk"); if (rc || p.bytes() != pk || s.bytes() != sk) mc::fail("Ed25519 key pair for seed %s differs from RFC 8032", hex(seed).c_str()); Bytes sg = cat({ref::ed::sign(m, sk), m}); if (esign(m, sk, i & 1) != sg) mc::fail("Ed25519 signature differs from RFC 8032 on special row %lu", (unsigned long)i); ecompare(sg, pk, i & 1, "row"); mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 special row %lu", (unsigned long)i); }});
static mc::Reg e3({"e_tamper", "Ed25519 open: every bit of signature, key and message of 3 signed messages changed; every commitment bit wrong with consistent scalar; scalar + kL for every k; every length below 64 and truncations",
    [](int) { return 3ull * 110 + 256 + 16 + 2; },
    [](uint64_t i) { static Bytes pk, sk; if (pk.empty()) ref::ed::keygen(mc::prf("et", 32), pk, sk); if (i < 330) { size_t n = (size_t[]){0, 1, 46}[i / 110]; Bytes m = content(0, n, "et"), sm = cat({ref::ed::sign(m, sk), m}); size_t p = i % 110; for (int b = 0; b < 8; b++) { if (p < sm.size()) ecompare(xorb(sm, p, 1 << b), pk, b & 1, "tampered"); if (p < 32) ecompare(sm, xorb(pk, p, 1 << b), b & 1, "tampered key"); } }
        else if (i < 330 + 256) { Bytes m = content(0, i % 50, "ew"); ecompare(cat({ed_wrongR(m, sk, (int)(i - 330)), m}), pk, i & 1, fmt("commitment bit %lu wrong", (unsigned long)(i - 330))); } else if (i < 330 + 272) { Bytes m = content(0, 20 + i % 7, "ek"), o; if (ed_shiftS(ref::ed::sign(m, sk), (int)(i - 586), o)) ecompare(cat({o, m}), pk, i & 1, fmt("scalar + %lu*L", (unsigned long)(i - 586))); }
        else if (i == 602) { Bytes m = content(0, 40, "el"), sm = cat({ref::ed::sign(m, sk), m}); for (size_t n = 0; n < sm.size(); n++) ecompare(sub(sm, 0, n), pk, n & 1, fmt("truncated to %zu", n)); Bytes e = sm; e.push_back(0); ecompare(e, pk, true, "extended"); for (size_t n = 0; n < 64; n++) { mc::GBuf s(Bytes(n, 0)), k(pk), o(n); LenBox L; int rc = crypto_sign_ed25519_tweet_open(o.p, L.ptr(), s.p, n, k.p); mc::transition(); if (!rc) mc::fail("Ed25519 open accepted %zu bytes", n); } }
        else { Bytes m = content(0, 40, "el"), a, b; Bytes pk2, sk2; ref::ed::keygen(mc::prf("et2", 32), pk2, sk2); ecompare(cat({ref::ed::sign(m, sk2), m}), pk, false, "other key"); ecompare(cat({ref::ed::sign(m, sk), m}), pk2, false, "other key"); Bytes mix = sk; for (int k = 32; k < 64; k++) mix[k] = sk2[k]; ecompare(cat({ref::ed::sign(m, mix), m}), pk, false, "mixed key"); if (esign(m, mix, false) != cat({ref::ed::sign(m, mix), m})) mc::fail("Ed25519 signing with mixed key differs from its definition"); }
        mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 tamper case %lu", (unsigned long)i); }});
static mc::Reg e3b({"e_folds", "Ed25519 open: commitments that differ from the true one in two bytes (every pair swapped, changed alike, changed by +1 and -1), rotated or inverted, each with the scalar belonging to it",
    [](int) { return (uint64_t)nfolds(32); },
    [](uint64_t i) { static Bytes pk, sk; if (pk.empty()) ref::ed::keygen(mc::prf("et", 32), pk, sk); Bytes m = content(0, i % 50, "ef"); ecompare(cat({ed_wrongR(m, sk, [=](Bytes b) { return fold(b, i); }), m}), pk, i & 1, fmt("commitment altered as %lu", (unsigned long)i)); mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 commitment alteration %lu", (unsigned long)i); }});
static mc::Reg e4({"e_points", "Ed25519 open: scalars 0,1,..,L-1,L,L+1,..,2^256-1 and commitments valid for low-order keys; every low-order, non-canonical and small-y key encoding, decodable or not; verdict of the strict model",
    [](int) { return 20ull + 1024; },
    [](uint64_t i) { using namespace ref; Bytes m = content(0, i % 33, "ep");
        if (i < 20) { // key = identity (y=1): S*B == R is all that is needed
            std::vector<U256> S; U256 l = Lord(); for (int d = -3; d <= 3; d++) { U256 x = l; if (d < 0) subb(x, x, u256(-d)); else addc(x, x, u256(d)); S.push_back(x); } for (int k : {2, 3, 7, 8, 15}) { U256 x; for (int j = 0; j < k; j++) addc(x, x, l); S.push_back(x); subb(x, x, u256(1)); S.push_back(x); } for (int k = 0; k < 4; k++) S.push_back(u256(k)); for (int b = 248; b < 256; b++) { U256 x; x.v[b / 64] = 1ULL << (b % 64); S.push_back(x); subb(x, x, u256(1)); S.push_back(x); } { U256 x; x.v[0] = x.v[1] = x.v[2] = x.v[3] = ~0ULL; S.push_back(x); }
            for (int b = 0; b < 253; b++) { U256 x = l; x.v[b / 64] ^= 1ULL << (b % 64); S.push_back(x); }
            Bytes key(32, 0); if (i % 4 == 0) key[0] = 1; else if (i % 4 == 1) { key = Bytes(32, 0xFF); key[0] = 0xEC; key[31] = 0x7F; } else if (i % 4 == 2) { key[0] = 0; } else { key[0] = 1; key[31] = 0x80; }
            for (auto &s : S) { Bytes R = ed::enc(ed::smul_base(mod_bits(s.v, 4))); for (int t = 0; t < 2; t++) { if (t) { ed::Pt q, A; if (!ed::dec(key, A)) continue; U256 k = modL64(sha512(cat({R, key, m}))); // one step: choose R = S*B - k*A only for order-2 keys by parity guess
                        ed::Pt r = ed::addp(ed::smul_base(mod_bits(s.v, 4)), ed::negp(A)); R = ed::enc(r); } ecompare(cat({R, le32(s), m}), key, t, fmt("scalar %s", hex(le32(s), 32).c_str())); } } }
        else { int q = (int)(i - 20); Bytes key(32, 0); if (q < 256) { key[0] = q; } else if (q < 512) { key[0] = q; key[31] = 0x80; } else if (q < 768) { key = Bytes(32, 0xFF); key[0] = q; key[31] = 0x7F; } else { key = Bytes(32, 0xFF); key[0] = q; }
            Bytes sk = mc::prf("pk" + std::to_string(q % 3), 64); for (int k = 0; k < 32; k++) sk[32 + k] = key[k]; ecompare(cat({ed::sign(m, sk), m}), key, q & 1, "unusual key"); Bytes id(32, 0); id[0] = 1; ecompare(cat({id, Bytes(32, 0), m}), key, q & 1, "unusual key, zero scalar"); Bytes R2 = key; R2[31] ^= 0x80; ecompare(cat({R2, Bytes(32, 0), m}), key, q & 1, "unusual key, zero scalar, R=-A"); ecompare(cat({key, Bytes(32, 0), m}), key, q & 1, "unusual key, zero scalar, R=A");
            ed::Pt A; if (ed::dec(key, A)) { Bytes R = ed::enc(ed::addp(ed::smul_base(u256(5)), ed::negp(A))); ecompare(cat({R, le32(u256(5)), m}), key, q & 1, "unusual key, R=5B-A"); R = ed::enc(ed::smul_base(u256(5))); ecompare(cat({R, le32(u256(5)), m}), key, q & 1, "unusual key, R=5B"); } }
        mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 point case %lu", (unsigned long)i); }});
static mc::Reg e5({"e_random", "Ed25519 key generation from the OS bytes for every delivery chunking",
    [](int) { return 64ull; },
    [](uint64_t i) { env::reset(fmt("ek%lu", (unsigned long)i)); env::rng.max_chunk = i % 33; env::rng.eintr_mask = i * 3; mc::GBuf pk(32), sk(64); Call c; int rc = crypto_sign_ed25519_tweet_keypair(pk.p, sk.p); c.done("Ed25519 keypair"); pk.check("pk"); sk.check("sk"); Bytes p, s; ref::ed::keygen(env::expect(env::rng.tape, 0, 32), p, s); if (rc || pk.bytes() != p || sk.bytes() != s) mc::fail("Ed25519 key pair (rc %d) is not that of the 32 OS bytes", rc); mc::state(mc::hash(p)); mc::trace(); },
    [](uint64_t i) { return fmt("Ed25519 keypair case %lu", (unsigned long)i); }});
