// The implementation under test, called through exact-size guarded buffers with read-only inputs.
#pragma once
#include "core.hpp"
#include "ref/dil.hpp"
#include "ref/ed.hpp"
#include "ref/nacl.hpp"
#include "ref/sph.hpp"
#include <memory>
extern "C" {
#include "hybrid-dilithium-sphincs/hybrid.h"
#include "tweetnacl/tweetnacl.h"
#include "random/randombytes.h"
#include "common/fips202.h"
#include "common/shake_prng.h"
#include "dilithium2/api.h"
#undef HYBRID_API
#include "sphincs/api.h"
}
namespace im {
enum Mode { COMPACT = 0, FULL = 1 };
static const size_t PK = 1408, SK = 4064, SEED = 160;
inline size_t smlen_of(int mode, size_t mlen) { return (mode == COMPACT ? 2526 : 52342) + mlen; }
static const unsigned long long LENMAGIC = 0xDEADBEEFCAFEF00DULL;
inline const char *mname(int m) { return m == COMPACT ? "compact" : "full"; }

struct Call { // brackets one implementation call
    Call() { env::heap_track(true); }
    void done(const char *what, bool expect_balance = true) {
        long l = env::heap_live(); env::heap_track(false); mc::transition();
        if (expect_balance && l != 0) mc::fail("%s: %ld heap block(s) allocated during the call were not freed", what, l);
    }
};
struct LenBox { mc::GBuf g; LenBox() : g(sizeof(unsigned long long)) { set(LENMAGIC); } void set(unsigned long long v) { memcpy(g.p, &v, sizeof v); } unsigned long long get() const { unsigned long long v; memcpy(&v, g.p, sizeof v); return v; } unsigned long long *ptr() { return (unsigned long long *)g.p; } };

struct SignRes { int rc; Bytes sm; };
inline int c_sign(int mode, unsigned char *sm, unsigned long long *sl, const unsigned char *m, unsigned long long n, const unsigned char *sk) { return mode == COMPACT ? crypto_sign_compact_dilithium_ed25519_sphincs(sm, sl, m, n, sk) : crypto_sign_dilithium_ed25519_sphincs(sm, sl, m, n, sk); }
inline int c_open(int mode, unsigned char *m, unsigned long long *ml, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return mode == COMPACT ? crypto_sign_compact_dilithium_ed25519_sphincs_open(m, ml, sm, n, pk) : crypto_sign_dilithium_ed25519_sphincs_open(m, ml, sm, n, pk); }
inline int c_verify(int mode, const unsigned char *m, unsigned long long ml, const unsigned char *sm, unsigned long long n, const unsigned char *pk) { return mode == COMPACT ? crypto_verify_compact_dilithium_ed25519_sphincs(m, ml, sm, n, pk) : crypto_verify_dilithium_ed25519_sphincs(m, ml, sm, n, pk); }

// Signs msg (1..64 bytes expected to succeed unless randomness fails).
inline SignRes sign(int mode, const Bytes &msg, const Bytes &sk, bool left = false) {
    mc::GBuf m(msg, left), k(sk, left), sm(smlen_of(mode, msg.size()), left); LenBox L; m.readonly(); k.readonly();
    Call c; int rc = c_sign(mode, sm.p, L.ptr(), m.p, msg.size(), k.p); c.done("sign");
    sm.check("sign output"); L.g.check("sign length");
    SignRes r; r.rc = rc;
    if (rc == 0) { if (L.get() != sm.n) mc::fail("%s sign of %zu bytes reported length %llu, documented %zu", mname(mode), msg.size(), L.get(), sm.n); r.sm = sm.bytes(); }
    else { if (!sm.all(0xA5)) mc::fail("%s sign failed (rc %d) but wrote to the signature buffer", mname(mode), rc); if (L.get() != LENMAGIC) mc::fail("%s sign failed (rc %d) but changed the length", mname(mode), rc); }
    mc::state(mc::mix(mc::hash(r.sm, rc), mode)); return r;
}
struct OpenRes { int rc; Bytes m; };
// smlen defaults to sm.size(); the message buffer is exactly as large as the length byte says (64 when it is out of range)
inline OpenRes open(int mode, const Bytes &sm, const Bytes &pk, bool left = false) {
    size_t cap = sm.size() > 1 && sm[1] >= 1 && sm[1] <= 64 ? sm[1] : 64;
    mc::GBuf m(cap, left), s(sm, left), k(pk, left); LenBox L; s.readonly(); k.readonly();
    Call c; int rc = c_open(mode, m.p, L.ptr(), s.p, sm.size(), k.p); c.done("open");
    m.check("open output"); L.g.check("open length"); OpenRes r; r.rc = rc;
    if (rc == 0) { if (L.get() > cap) mc::fail("%s open reported message length %llu for a length byte of %d", mname(mode), L.get(), sm[1]); r.m = Bytes(m.p, m.p + L.get()); for (size_t i = L.get(); i < cap; i++) if (m.p[i] != 0xA5) mc::fail("%s open wrote beyond the reported message", mname(mode)); }
    else { if (!m.all(0xA5)) mc::fail("%s open failed (rc %d) but wrote to the message buffer", mname(mode), rc); if (L.get() != LENMAGIC) mc::fail("%s open failed (rc %d) but changed the length", mname(mode), rc); }
    mc::state(mc::mix(mc::hash(sm, mc::hash(pk, rc)), mode)); mc::outcome(rc == 0 ? "open accepted" : "open rejected"); return r;
}
inline int verify(int mode, const Bytes &msg, const Bytes &sm, const Bytes &pk, bool left = false) {
    mc::GBuf m(msg, left), s(sm, left), k(pk, left); m.readonly(); s.readonly(); k.readonly();
    Call c; int rc = c_verify(mode, m.p, msg.size(), s.p, sm.size(), k.p); c.done("verify");
    mc::state(mc::mix(mc::hash(sm, mc::hash(pk, mc::hash(msg, rc))), mode + 2)); mc::outcome(rc == 0 ? "verify accepted" : "verify rejected"); return rc;
}
struct Key { Bytes pk, sk; };
inline Key keypair_seed(const Bytes &seed, bool left = false) {
    mc::GBuf pk(PK, left), sk(SK, left), s(seed, left); s.readonly(); Call c; int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk.p, sk.p, s.p); c.done("keypair_seed"); pk.check("public key"); sk.check("secret key");
    if (rc) mc::fail("seeded key generation failed with %d for seed %s", rc, mc::hex(seed, 160).c_str());
    Key k{pk.bytes(), sk.bytes()}; mc::state(mc::hash(k.pk)); return k;
}
// ---- reference (model) side of the hybrid interface
inline Key ref_keypair(const Bytes &seed) { Bytes p1, s1, p2, s2, p3, s3; ref::ed::keygen(sub(seed, 0, 32), p1, s1); ref::dil::keygen(sub(seed, 32, 32), p2, s2); ref::sph::keygen(sub(seed, 64, 96), p3, s3); return Key{cat({p1, p2, p3}), cat({s1, s2, p2, s3})}; }
struct RefKey { // model of one key pair, with the expensive parts cached
    Key k; ref::dil::Signer ds; ref::dil::Verifier dv; Bytes ed_sk, ed_pk, sph_sk, sph_pk;
    explicit RefKey(const Key &k_) : k(k_), ds(sub(k_.sk, 64, 2560)), dv(sub(k_.pk, 32, 1312)), ed_sk(sub(k_.sk, 0, 64)), ed_pk(sub(k_.pk, 0, 32)), sph_sk(sub(k_.sk, 3936, 128)), sph_pk(sub(k_.pk, 1344, 64)) {}
    Bytes cdigest(const Bytes &nonce, const Bytes &msg) const { return ref::sha3(cat({nonce, msg, sph_pk}), 512); }
    Bytes dsign(const Bytes &m) const { Bytes s; ds.sign(m, s); return s; }
};
inline Bytes asm_compact(const Bytes &msg, const Bytes &e, const Bytes &d, const Bytes &nonce) { return cat({Bytes{1, (uint8_t)msg.size()}, e, d, nonce, msg}); }
inline Bytes asm_full(const Bytes &msg, const Bytes &e, const Bytes &d, const Bytes &s) { return cat({Bytes{2, (uint8_t)msg.size()}, e, msg, d, s}); }
inline Bytes ref_compact(const RefKey &k, const Bytes &msg, const Bytes &nonce) { Bytes h = k.cdigest(nonce, msg); return asm_compact(msg, ref::ed::sign(h, k.ed_sk), k.dsign(h), nonce); }
inline Bytes ref_full(const RefKey &k, const Bytes &msg, const Bytes &opt) { return asm_full(msg, ref::ed::sign(msg, k.ed_sk), k.dsign(msg), ref::sph::sign(k.sph_sk, opt, msg)); }
// the model's verdict
inline bool ref_open(int mode, const Bytes &sm, const Bytes &pk, Bytes &m) {
    if (sm.size() < 2 || sm[0] != (mode == COMPACT ? 1 : 2) || sm[1] < 1 || sm[1] > 64 || sm.size() != smlen_of(mode, sm[1])) return false;
    size_t n = sm[1]; Bytes e = sub(sm, 2, 64), p1 = sub(pk, 0, 32), p2 = sub(pk, 32, 1312), p3 = sub(pk, 1344, 64);
    if (mode == COMPACT) { m = sub(sm, 2526, n); Bytes h = ref::sha3(cat({sub(sm, 2486, 40), m, p3}), 512); return ref::ed::verify(e, h, p1) && ref::dil::Verifier(p2).ok(sub(sm, 66, 2420), h); }
    m = sub(sm, 66, n); return ref::ed::verify(e, m, p1) && ref::dil::Verifier(p2).ok(sub(sm, 66 + n, 2420), m) && ref::sph::verify(sub(sm, 66 + n + 2420, 49856), m, p3);
}
// ---- shared fixtures (built once per process, by the implementation itself, from fixed seeds)
inline const Key &key(int i) { static std::vector<std::unique_ptr<Key>> v; while ((int)v.size() <= i) v.emplace_back(new Key(keypair_seed(mc::prf("key" + std::to_string(v.size()), 160)))); return *v[i]; }
inline const RefKey &rkey(int i) { static std::vector<std::unique_ptr<RefKey>> v; while ((int)v.size() <= i) v.emplace_back(nullptr); if (!v[i]) v[i].reset(new RefKey(key(i))); return *v[i]; }
}
