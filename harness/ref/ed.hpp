// Reference SHA-512, Ed25519 and X25519 over a small fixed-width integer type (plain, not constant time).
#pragma once
#include "keccak.hpp"
namespace ref {
typedef unsigned __int128 u128;
// with `state`: that state after the whole 128-byte blocks of `in` (no padding)
inline Bytes sha512(const Bytes &in, const Bytes *state = nullptr) {
    static bool init = false; static uint64_t KK[80], H0[8];
    if (!init) { // constants: fractional parts of cube/square roots of primes, by integer root search
        auto frac = [](unsigned p, int root) { // floor(frac(p^(1/root))*2^64)
            // binary search x with x^root <= p * 2^(64*root), x < 2^68, using long double-free big arithmetic
            auto le = [&](u128 x) { // x has up to 68 bits
                uint32_t a[8] = {0}, r[12] = {0}; int n = 3; a[0] = (uint32_t)x; a[1] = (uint32_t)(x >> 32); a[2] = (uint32_t)(x >> 64); r[0] = 1; int rn = 1;
                for (int k = 0; k < root; k++) { uint32_t t[12] = {0}; for (int i = 0; i < rn; i++) { uint64_t c = 0; for (int j = 0; j < n; j++) { uint64_t v = (uint64_t)r[i] * a[j] + t[i + j] + c; t[i + j] = (uint32_t)v; c = v >> 32; } int q = i + n; while (c) { uint64_t v = (uint64_t)t[q] + c; t[q] = (uint32_t)v; c = v >> 32; q++; } } memcpy(r, t, sizeof r); rn += n; }
                uint32_t tgt[12] = {0}; tgt[2 * root] = p; for (int i = 11; i >= 0; i--) if (r[i] != tgt[i]) return r[i] < tgt[i]; return true; };
            u128 lo = 0, hi = (u128)1 << 68; while (hi - lo > 1) { u128 mid = (lo + hi) / 2; if (le(mid)) lo = mid; else hi = mid; } return (uint64_t)lo; };
        int c = 0; for (unsigned p = 2; c < 80; p++) { bool pr = true; for (unsigned q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (!pr) continue; KK[c] = frac(p, 3); if (c < 8) H0[c] = frac(p, 2); c++; }
        init = true; }
    Bytes m = in; if (state) m.resize(in.size() / 128 * 128); else { m.push_back(0x80); while (m.size() % 128 != 112) m.push_back(0); u128 bits = (u128)in.size() * 8; for (int i = 15; i >= 0; i--) m.push_back((uint8_t)(bits >> (8 * i))); }
    uint64_t h[8]; memcpy(h, H0, sizeof h); if (state) for (int i = 0; i < 8; i++) { h[i] = 0; for (int j = 0; j < 8; j++) h[i] = h[i] << 8 | (*state)[8 * i + j]; } auto rr = [](uint64_t x, int n) { return x >> n | x << (64 - n); };
    for (size_t o = 0; o < m.size(); o += 128) { uint64_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | m[o + 8 * i + j]; }
        for (int i = 16; i < 80; i++) { uint64_t s0 = rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ (w[i - 15] >> 7), s1 = rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ (w[i - 2] >> 6); w[i] = w[i - 16] + s0 + w[i - 7] + s1; }
        uint64_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 80; i++) { uint64_t t1 = hh + (rr(e, 14) ^ rr(e, 18) ^ rr(e, 41)) + ((e & f) ^ (~e & g)) + KK[i] + w[i], t2 = (rr(a, 28) ^ rr(a, 34) ^ rr(a, 39)) + ((a & b) ^ (a & c) ^ (b & c)); hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh; }
    Bytes r; for (int i = 0; i < 8; i++) for (int j = 7; j >= 0; j--) r.push_back((uint8_t)(h[i] >> (8 * j))); return r;
}
// ---- 256-bit helpers, little-endian 64-bit limbs
struct U256 { uint64_t v[4] = {0, 0, 0, 0}; };
inline U256 u256(uint64_t a) { U256 r; r.v[0] = a; return r; }
inline U256 u256_le(const uint8_t *b) { U256 r; for (int i = 0; i < 32; i++) r.v[i / 8] |= (uint64_t)b[i] << (8 * (i % 8)); return r; }
inline Bytes le32(const U256 &a) { Bytes r(32); for (int i = 0; i < 32; i++) r[i] = (uint8_t)(a.v[i / 8] >> (8 * (i % 8))); return r; }
inline int cmp(const U256 &a, const U256 &b) { for (int i = 3; i >= 0; i--) if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1; return 0; }
inline uint64_t addc(U256 &r, const U256 &a, const U256 &b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (uint64_t)c; c >>= 64; } return (uint64_t)c; }
inline uint64_t subb(U256 &r, const U256 &a, const U256 &b) { uint64_t br = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.v[i] - b.v[i] - br; r.v[i] = (uint64_t)t; br = (t >> 64) & 1; } return br; }
inline void mul512(uint64_t r[8], const U256 &a, const U256 &b) { memset(r, 0, 64); for (int i = 0; i < 4; i++) { u128 c = 0; for (int j = 0; j < 4; j++) { c += (u128)a.v[i] * b.v[j] + r[i + j]; r[i + j] = (uint64_t)c; c >>= 64; } r[i + 4] = (uint64_t)c; } }
// ---- field mod p = 2^255-19, canonical representatives
inline const U256 &P() { static U256 p = [] { U256 x; x.v[0] = ~0ULL - 18; x.v[1] = x.v[2] = ~0ULL; x.v[3] = 0x7fffffffffffffffULL; return x; }(); return p; }
inline U256 fred(U256 a) { while (cmp(a, P()) >= 0) subb(a, a, P()); return a; }
inline U256 fadd(const U256 &a, const U256 &b) { U256 r; addc(r, a, b); return fred(r); }
inline U256 fsub(const U256 &a, const U256 &b) { U256 r; if (subb(r, a, b)) addc(r, r, P()); return r; }
inline U256 fmul(const U256 &a, const U256 &b) {
    uint64_t t[8]; mul512(t, a, b); // hi*2^256 = hi*38
    U256 r; u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)t[4 + i] * 38 + t[i]; r.v[i] = (uint64_t)c; c >>= 64; }
    while (c) { u128 k = c * 38; c = 0; for (int i = 0; i < 4; i++) { k += r.v[i]; r.v[i] = (uint64_t)k; k >>= 64; } c = k; }
    return fred(r);
}
inline U256 fpow(U256 b, U256 e) { U256 r = u256(1); for (int i = 255; i >= 0; i--) { r = fmul(r, r); if (e.v[i / 64] >> (i % 64) & 1) r = fmul(r, b); } return r; }
inline U256 finv(const U256 &a) { U256 e = P(); e.v[0] -= 2; return fpow(a, e); }
inline bool fzero(const U256 &a) { return !(a.v[0] | a.v[1] | a.v[2] | a.v[3]); }
inline U256 fneg(const U256 &a) { return fsub(u256(0), a); }
// ---- scalars mod L
inline const U256 &Lord() { static U256 l = [] { U256 x; x.v[0] = 0x5812631a5cf5d3edULL; x.v[1] = 0x14def9dea2f79cd6ULL; x.v[2] = 0; x.v[3] = 0x1000000000000000ULL; return x; }(); return l; }
inline U256 mod_bits(const uint64_t *w, int nwords) { U256 r; for (int i = nwords * 64 - 1; i >= 0; i--) { uint64_t top = addc(r, r, r); (void)top; r.v[0] |= w[i / 64] >> (i % 64) & 1; if (cmp(r, Lord()) >= 0) subb(r, r, Lord()); } return r; }
inline U256 modL64(const Bytes &b) { uint64_t w[8] = {0}; for (int i = 0; i < 64; i++) w[i / 8] |= (uint64_t)b[i] << (8 * (i % 8)); return mod_bits(w, 8); }
inline U256 sc_muladd(const U256 &a, const U256 &b, const U256 &c) { uint64_t t[8]; mul512(t, a, b); U256 m = mod_bits(t, 8), cc = mod_bits(c.v, 4), r; addc(r, m, cc); if (cmp(r, Lord()) >= 0) subb(r, r, Lord()); return r; }
// ---- edwards curve -x^2+y^2=1+d x^2 y^2
namespace ed {
inline const U256 &dconst() { static U256 d = [] { return fmul(fneg(u256(121665)), finv(u256(121666))); }(); return d; }
inline const U256 &sqrtm1() { static U256 s = [] { U256 e = P(); subb(e, e, u256(1)); for (int k = 0; k < 2; k++) for (int i = 0; i < 4; i++) { e.v[i] = e.v[i] >> 1 | (i < 3 ? e.v[i + 1] << 63 : 0); } return fpow(u256(2), e); }(); return s; }
struct Pt { U256 X, Y, Z, T; };
inline Pt ident() { Pt p; p.X = u256(0); p.Y = p.Z = u256(1); p.T = u256(0); return p; }
inline Pt addp(const Pt &a, const Pt &b) { U256 A = fmul(fsub(a.Y, a.X), fsub(b.Y, b.X)), B = fmul(fadd(a.Y, a.X), fadd(b.Y, b.X)), C = fmul(fmul(fmul(a.T, b.T), dconst()), u256(2)), Dd = fmul(fmul(a.Z, b.Z), u256(2)); U256 E = fsub(B, A), F = fsub(Dd, C), G = fadd(Dd, C), H = fadd(B, A); Pt r; r.X = fmul(E, F); r.Y = fmul(G, H); r.T = fmul(E, H); r.Z = fmul(F, G); return r; }
inline Pt smul(const U256 &k, const Pt &p) { Pt r = ident(); for (int i = 255; i >= 0; i--) { r = addp(r, r); if (k.v[i / 64] >> (i % 64) & 1) r = addp(r, p); } return r; }
inline Pt negp(Pt p) { p.X = fneg(p.X); p.T = fneg(p.T); return p; }
inline Bytes enc(const Pt &p) { U256 zi = finv(p.Z), x = fmul(p.X, zi), y = fmul(p.Y, zi); Bytes r = le32(y); r[31] |= (uint8_t)((x.v[0] & 1) << 7); return r; }
// Decoding as the implementation's reference (NaCl/TweetNaCl) defines it: y is taken modulo p, the
// sign bit selects x; x=0 with sign bit set is accepted (x stays 0).
inline bool dec(const Bytes &b, Pt &p) {
    U256 y = u256_le(b.data()); int sign = y.v[3] >> 63; y.v[3] &= 0x7fffffffffffffffULL; y = fred(y);
    U256 y2 = fmul(y, y), u = fsub(y2, u256(1)), v = fadd(fmul(dconst(), y2), u256(1));
    // x = sqrt(u/v)
    U256 e = P(); subb(e, e, u256(5)); for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) e.v[i] = e.v[i] >> 1 | (i < 3 ? e.v[i + 1] << 61 << 2 : 0); // (p-5)/8
    U256 v3 = fmul(fmul(v, v), v), v7 = fmul(fmul(v3, v3), v), x = fmul(fmul(u, v3), fpow(fmul(u, v7), e));
    U256 c = fmul(v, fmul(x, x)); if (cmp(c, u)) { x = fmul(x, sqrtm1()); c = fmul(v, fmul(x, x)); if (cmp(c, u)) return false; }
    if ((int)(x.v[0] & 1) != sign) x = fneg(x);
    p.X = x; p.Y = y; p.Z = u256(1); p.T = fmul(x, y); return true;
}
inline const Pt &base() { static Pt b = [] { Pt p; U256 y = fmul(u256(4), finv(u256(5))); Bytes e = le32(y); if (!dec(e, p)) abort(); return p; }(); return b; }
struct BaseTab { Pt t[64][16]; BaseTab() { Pt p = base(); for (int i = 0; i < 64; i++) { t[i][0] = ident(); for (int j = 1; j < 16; j++) t[i][j] = addp(t[i][j - 1], p); p = addp(t[i][15], p); } } };
inline Pt smul_base(const U256 &k) { static BaseTab *T = new BaseTab; Pt r = ident(); for (int i = 0; i < 64; i++) r = addp(r, T->t[i][k.v[i / 16] >> (4 * (i % 16)) & 15]); return r; }
inline void clamp(Bytes &d) { d[0] &= 248; d[31] &= 127; d[31] |= 64; }
inline void keygen(const Bytes &seed, Bytes &pk, Bytes &sk) { Bytes h = sha512(seed); clamp(h); pk = enc(smul_base(u256_le(h.data()))); sk = cat({seed, pk}); }
inline Bytes sign(const Bytes &msg, const Bytes &sk) { // detached 64 bytes
    Bytes h = sha512(sub(sk, 0, 32)); clamp(h); U256 a = u256_le(h.data()); U256 r = modL64(sha512(cat({sub(h, 32, 32), msg}))); Bytes R = enc(smul_base(r)); U256 k = modL64(sha512(cat({R, sub(sk, 32, 32), msg}))); return cat({R, le32(sc_muladd(k, a, r))});
}
// strict: S must be below L
inline bool verify(const Bytes &sig, const Bytes &msg, const Bytes &pk, bool strict = true) {
    U256 S = u256_le(sig.data() + 32); if (strict && cmp(S, Lord()) >= 0) return false; Pt A; if (!dec(pk, A)) return false;
    Bytes R = sub(sig, 0, 32); U256 k = modL64(sha512(cat({R, pk, msg}))); Pt q = addp(smul_base(S), smul(k, negp(A))); return enc(q) == R;
}
}
inline Bytes x25519(const Bytes &n, const Bytes &pt) {
    Bytes z = n; z[31] = (z[31] & 127) | 64; z[0] &= 248; U256 k = u256_le(z.data()), u = u256_le(pt.data()); u.v[3] &= 0x7fffffffffffffffULL; u = fred(u);
    U256 x2 = u256(1), z2 = u256(0), x3 = u, z3 = u256(1); int sw = 0;
    for (int t = 254; t >= 0; t--) { int kt = k.v[t / 64] >> (t % 64) & 1; if (sw != kt) { std::swap(x2, x3); std::swap(z2, z3); } sw = kt;
        U256 A = fadd(x2, z2), AA = fmul(A, A), B = fsub(x2, z2), BB = fmul(B, B), E = fsub(AA, BB), C = fadd(x3, z3), Dd = fsub(x3, z3), DA = fmul(Dd, A), CB = fmul(C, B), s = fadd(DA, CB), d = fsub(DA, CB); x3 = fmul(s, s); z3 = fmul(u, fmul(d, d)); x2 = fmul(AA, BB); z2 = fmul(E, fadd(AA, fmul(u256(121665), E))); }
    if (sw) { std::swap(x2, x3); std::swap(z2, z3); } return le32(fmul(x2, finv(z2)));
}
} // namespace ref
