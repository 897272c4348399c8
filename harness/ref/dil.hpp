// Reference Dilithium2 (round-3.1 parameters with 64-byte tr, deterministic rnd=0), schoolbook arithmetic.
#pragma once
#include "keccak.hpp"
#include <algorithm>
#include <functional>
namespace ref { namespace dil {
static const int32_t Q = 8380417, G1 = 1 << 17, G2 = (8380417 - 1) / 88, BETA = 78, TAU = 39, OMEGA = 80, ETA = 2, D = 13;
static const int K = 4, L = 4, N = 256;
static const size_t PK = 1312, SK = 2560, SIG = 2420;
typedef std::array<int32_t, 256> Poly; // canonical [0,Q) or signed small, see use
typedef std::array<Poly, 4> Vec;
inline int32_t modq(int64_t a) { int64_t r = a % Q; return (int32_t)(r < 0 ? r + Q : r); }
inline int32_t cent(int32_t a) { a = modq(a); return a > Q / 2 ? a - Q : a; }
inline Poly mul(const Poly &a, const Poly &b) { // operands |x| < 2^23
    int64_t acc[512] = {0};
    int64_t bb[256]; for (int j = 0; j < 256; j++) bb[j] = b[j];
    for (int i = 0; i < 256; i++) { int64_t x = a[i]; if (!x) continue; int64_t *o = acc + i; for (int j = 0; j < 256; j++) o[j] += x * bb[j]; }
    Poly r; for (int i = 0; i < 256; i++) r[i] = modq(acc[i] - acc[i + 256]); return r;
}
inline Poly add(const Poly &a, const Poly &b) { Poly r; for (int i = 0; i < 256; i++) r[i] = modq((int64_t)a[i] + b[i]); return r; }
inline Poly subp(const Poly &a, const Poly &b) { Poly r; for (int i = 0; i < 256; i++) r[i] = modq((int64_t)a[i] - b[i]); return r; }
// the matrix is sampled directly in the NTT domain; bring it to coefficients with an O(n^2) inverse transform
inline int64_t powq(int64_t b, int64_t e) { int64_t r = 1; b = modq(b); while (e) { if (e & 1) r = r * b % Q; b = b * b % Q; e >>= 1; } return r; }
inline int brv8(int x) { int r = 0; for (int i = 0; i < 8; i++) r |= ((x >> i) & 1) << (7 - i); return r; }
struct Ntt { // hat[i] = a(zeta^(2*brv(i)+1)); inverse by direct evaluation
    int64_t inv[256][256];
    Ntt() {
        int64_t ninv = powq(256, Q - 2);
        for (int i = 0; i < 256; i++) { int64_t root = powq(1753, 2 * brv8(i) + 1), ri = powq(root, Q - 2), c = ninv;
            for (int j = 0; j < 256; j++) { inv[j][i] = c; c = c * ri % Q; } }
    }
};
inline const Ntt &ntt() { static Ntt t; return t; }
inline Poly from_hat(const Poly &h) { const auto &T = ntt(); Poly r; for (int j = 0; j < 256; j++) { int64_t s = 0; for (int i = 0; i < 256; i++) s += T.inv[j][i] * h[i]; r[j] = modq(s); } return r; }
inline Poly expandA1(const Bytes &rho, int i, int j) { // returns hat values
    Sponge s(168, 0x1F); s.absorb(rho); uint8_t nn[2] = {(uint8_t)j, (uint8_t)i}; s.absorb(nn, 2);
    Poly h; int c = 0; while (c < 256) { uint32_t b0 = s.next(), b1 = s.next(), b2 = s.next(); uint32_t t = (b0 | b1 << 8 | b2 << 16) & 0x7FFFFF; if (t < (uint32_t)Q) h[c++] = t; } return h;
}
struct Mat { Poly a[4][4]; };
inline Mat expandA(const Bytes &rho) { Mat m; for (int i = 0; i < K; i++) for (int j = 0; j < L; j++) m.a[i][j] = from_hat(expandA1(rho, i, j)); return m; }
inline Poly sampleEta(const Bytes &seed, int nonce) {
    Sponge s(136, 0x1F); s.absorb(seed); uint8_t nn[2] = {(uint8_t)nonce, (uint8_t)(nonce >> 8)}; s.absorb(nn, 2);
    Poly p; int c = 0; while (c < 256) { uint8_t b = s.next(); for (int h = 0; h < 2 && c < 256; h++) { int v = h ? b >> 4 : b & 15; if (v < 15) p[c++] = 2 - v % 5; } } return p;
}
inline void putbits(Bytes &o, const Poly &p, int bits, const std::function<uint32_t(int32_t)> &f) {
    uint64_t acc = 0; int nb = 0; for (int i = 0; i < 256; i++) { acc |= (uint64_t)f(p[i]) << nb; nb += bits; while (nb >= 8) { o.push_back((uint8_t)acc); acc >>= 8; nb -= 8; } }
}
inline Poly getbits(const uint8_t *b, int bits, const std::function<int32_t(uint32_t)> &f) {
    Poly p; uint64_t acc = 0; int nb = 0; for (int i = 0; i < 256; i++) { while (nb < bits) { acc |= (uint64_t)*b++ << nb; nb += 8; } p[i] = f((uint32_t)(acc & ((1u << bits) - 1))); acc >>= bits; nb -= bits; } return p;
}
inline Poly sampleY(const Bytes &rp, int nonce) {
    Bytes in = rp; in.push_back((uint8_t)nonce); in.push_back((uint8_t)(nonce >> 8)); Bytes o = shake256(in, 576);
    return getbits(o.data(), 18, [](uint32_t v) { return G1 - (int32_t)v; });
}
inline Poly challenge(const Bytes &c32) {
    Sponge s(136, 0x1F); s.absorb(c32); uint64_t signs = 0; for (int i = 0; i < 8; i++) signs |= (uint64_t)s.next() << (8 * i);
    Poly c; c.fill(0);
    for (int i = 256 - TAU; i < 256; i++) { int b; do b = s.next(); while (b > i); c[i] = c[b]; c[b] = (signs & 1) ? -1 : 1; signs >>= 1; } return c;
}
inline void power2round(int32_t a, int32_t &a1, int32_t &a0) { // a in [0,Q)
    int32_t m = a % (1 << D); if (m > (1 << (D - 1))) m -= 1 << D; a0 = m; a1 = (a - m) >> D;
}
inline void decompose(int32_t a, int32_t &a1, int32_t &a0) {
    int32_t al = 2 * G2, m = a % al; if (m > G2) m -= al; if (a - m == Q - 1) { a1 = 0; a0 = m - 1; } else { a1 = (a - m) / al; a0 = m; }
}
inline int32_t usehint(int32_t a, int h) { int32_t a1, a0; decompose(a, a1, a0); if (!h) return a1; return a0 > 0 ? (a1 + 1) % 44 : (a1 + 43) % 44; }
struct PkU { Bytes rho; Vec t1; };
inline PkU unpack_pk(const Bytes &pk) { PkU u; u.rho = sub(pk, 0, 32); for (int i = 0; i < 4; i++) u.t1[i] = getbits(pk.data() + 32 + 320 * i, 10, [](uint32_t v) { return (int32_t)v; }); return u; }
struct SkU { Bytes rho, key, tr; Vec s1, s2, t0; };
inline SkU unpack_sk(const Bytes &sk) {
    SkU u; u.rho = sub(sk, 0, 32); u.key = sub(sk, 32, 32); u.tr = sub(sk, 64, 64); const uint8_t *p = sk.data() + 128;
    for (int i = 0; i < 4; i++, p += 96) u.s1[i] = getbits(p, 3, [](uint32_t v) { return 2 - (int32_t)v; });
    for (int i = 0; i < 4; i++, p += 96) u.s2[i] = getbits(p, 3, [](uint32_t v) { return 2 - (int32_t)v; });
    for (int i = 0; i < 4; i++, p += 416) u.t0[i] = getbits(p, 13, [](uint32_t v) { return 4096 - (int32_t)v; });
    return u;
}
inline void keygen_parts(const Bytes &rho, const Bytes &rp, const Bytes &key, Bytes &pk, Bytes &sk) {
    Mat A = expandA(rho); Vec s1, s2, t1, t0; for (int i = 0; i < 4; i++) s1[i] = sampleEta(rp, i); for (int i = 0; i < 4; i++) s2[i] = sampleEta(rp, 4 + i);
    for (int i = 0; i < 4; i++) { Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = add(t, mul(s1[j], A.a[i][j])); t = add(t, s2[i]); for (int n = 0; n < 256; n++) power2round(t[n], t1[i][n], t0[i][n]); }
    pk = rho; for (int i = 0; i < 4; i++) putbits(pk, t1[i], 10, [](int32_t v) { return (uint32_t)v; });
    Bytes tr = shake256(pk, 64); sk = cat({rho, key, tr});
    for (int i = 0; i < 4; i++) putbits(sk, s1[i], 3, [](int32_t v) { return (uint32_t)(2 - v); });
    for (int i = 0; i < 4; i++) putbits(sk, s2[i], 3, [](int32_t v) { return (uint32_t)(2 - v); });
    for (int i = 0; i < 4; i++) putbits(sk, t0[i], 13, [](int32_t v) { return (uint32_t)(4096 - v); });
}
inline void keygen(const Bytes &seed, Bytes &pk, Bytes &sk) { Bytes sb = shake256(seed, 128); keygen_parts(sub(sb, 0, 32), sub(sb, 32, 64), sub(sb, 96, 32), pk, sk); }
// What happened in a signing run: which rejection fired in each attempt.
// ev collects boundary events: 0 response norm exactly at its bound, 1 one below, 2 low part exactly at its bound, 3 one below, 4 c*t0
// exactly at its bound (and nothing else wrong), 5 above it, 6 exactly OMEGA hints, 7 one more, 8 w0-cs2+ct0 = -G2 with high part nonzero, 9 with high part zero, 10 = G2, 11 = G2+1, 12 = -G2-1
struct SignTrace { int rejz = 0, rejw0 = 0, rejt0 = 0, rejh = 0, attempts = 0, hints = 0; uint32_t ev = 0; };
// Options that make the signer deviate in exactly one rule (for building almost-valid signatures).
struct SignOpt { bool skip_z = false; int first_nonce = 0; int max_attempts = 1 << 20; std::function<bool(const Vec &z, int nh)> accept; 
                 std::function<void(Vec &y)> edit_y; };
inline Bytes pack_sig(const Bytes &c, const Vec &z, const std::array<std::array<int, 256>, 4> &h) {
    Bytes s = c; for (int i = 0; i < 4; i++) putbits(s, z[i], 18, [](int32_t v) { return (uint32_t)(G1 - v); });
    Bytes hb(OMEGA + K, 0); int k = 0; for (int i = 0; i < 4; i++) { for (int j = 0; j < 256; j++) if (h[i][j] && k < OMEGA) hb[k++] = (uint8_t)j; hb[OMEGA + i] = (uint8_t)k; }
    s.insert(s.end(), hb.begin(), hb.end()); return s;
}
struct Signer { // unpacks once; reusable
    SkU u; Mat A;
    explicit Signer(const Bytes &sk) : u(unpack_sk(sk)), A(expandA(u.rho)) {}
    static int32_t norm(const Poly &p) { int32_t m = 0; for (int x : p) { int32_t c = cent(x); if (c < 0) c = -c; if (c > m) m = c; } return m; }
    bool sign(const Bytes &msg, Bytes &sig, SignTrace *tr = nullptr, const SignOpt *opt = nullptr) const { return sign_mu(shake256(cat({u.tr, msg}), 64), sig, tr, opt); }
    bool sign_mu(const Bytes &mu, Bytes &sig, SignTrace *tr = nullptr, const SignOpt *opt = nullptr) const {
        Bytes rp = shake256(cat({u.key, Bytes(32, 0), mu}), 64);
        SignTrace dummy; if (!tr) tr = &dummy;
        int kappa = opt ? opt->first_nonce : 0;
        for (int att = 0; att < (opt ? opt->max_attempts : 1 << 20); att++, kappa++) {
            tr->attempts++;
            Vec y, w, w1, w0, z; for (int i = 0; i < 4; i++) y[i] = sampleY(rp, (uint16_t)(4 * kappa + i));
            if (opt && opt->edit_y) opt->edit_y(y);
            Bytes w1b; for (int i = 0; i < 4; i++) { Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = add(t, mul(A.a[i][j], y[j])); w[i] = t; for (int n = 0; n < 256; n++) decompose(t[n], w1[i][n], w0[i][n]); putbits(w1b, w1[i], 6, [](int32_t v) { return (uint32_t)v; }); }
            Bytes ct = shake256(cat({mu, w1b}), 32); Poly c = challenge(ct);
            bool ok = true; int32_t nz = 0, nw = 0, nt = 0; uint32_t he = 0; for (int i = 0; i < 4; i++) { Poly cs = mul(c, u.s1[i]); for (int n = 0; n < 256; n++) z[i][n] = cent(modq((int64_t)y[i][n] + cs[n])); nz = std::max(nz, norm(z[i])); if (norm(z[i]) >= G1 - BETA) ok = false; }
            if (nz == G1 - BETA) tr->ev |= 1; if (nz == G1 - BETA - 1) tr->ev |= 2;
            if (!ok && !(opt && opt->skip_z)) { tr->rejz++; continue; }
            std::array<std::array<int, 256>, 4> h; int nh = 0; bool r0bad = false, t0bad = false;
            for (int i = 0; i < 4; i++) {
                Poly cs2 = mul(c, u.s2[i]), ct0 = mul(c, u.t0[i]), r = subp(w[i], cs2);
                for (int n = 0; n < 256; n++) { int32_t a1, a0; decompose(r[n], a1, a0); nw = std::max(nw, a0 < 0 ? -a0 : a0); int32_t e = a0 + cent(ct0[n]); if (e == -G2) he |= a1 ? 1 << 8 : 1 << 9; if (e == G2) he |= 1 << 10; if (e == G2 + 1) he |= 1 << 11; if (e == -G2 - 1) he |= 1 << 12; if (a0 >= G2 - BETA || a0 <= -(G2 - BETA)) r0bad = true; }
                nt = std::max(nt, norm(ct0)); if (norm(ct0) >= G2) t0bad = true;
                for (int n = 0; n < 256; n++) { int32_t a = r[n], b = modq((int64_t)r[n] + ct0[n]); int32_t x1, x0, y1, y0; decompose(a, x1, x0); decompose(b, y1, y0); h[i][n] = x1 != y1; nh += h[i][n]; }
            }
            if (nw == G2 - BETA) tr->ev |= 4; if (nw == G2 - BETA - 1) tr->ev |= 8; if (!r0bad && nh <= OMEGA && nt == G2) tr->ev |= 16; if (!r0bad && nh <= OMEGA && nt > G2) tr->ev |= 32; if (!r0bad && !t0bad) { if (nh == OMEGA) tr->ev |= 64; if (nh == OMEGA + 1) tr->ev |= 128; if (nh <= OMEGA) tr->ev |= he; }
            if (r0bad) { tr->rejw0++; continue; }
            if (t0bad) { tr->rejt0++; continue; }
            if (nh > OMEGA) { tr->rejh++; continue; }
            if (opt && opt->accept && !opt->accept(z, nh)) continue;
            // |z| must fit the 18-bit encoding
            bool enc = true; for (auto &p : z) for (int v : p) if (v > G1 || v <= -G1) enc = false;
            if (!enc) continue;
            tr->hints = nh; sig = pack_sig(ct, z, h); return true;
        }
        return false;
    }
};
struct Verifier {
    Bytes pk; PkU u; Mat A; Bytes tr;
    explicit Verifier(const Bytes &pk_) : pk(pk_), u(unpack_pk(pk_)), A(expandA(u.rho)), tr(shake256(pk_, 64)) {}
    // rule: 0 ok, 1 length, 2 hint encoding, 3 z norm, 4 challenge
    int why(const Bytes &sig, const Bytes &msg, bool ignore_norm = false) const {
        if (sig.size() != SIG) return 1;
        Vec z; for (int i = 0; i < 4; i++) z[i] = getbits(sig.data() + 32 + 576 * i, 18, [](uint32_t v) { return G1 - (int32_t)v; });
        const uint8_t *hb = sig.data() + 32 + 4 * 576; std::array<std::array<int, 256>, 4> h; for (auto &x : h) x.fill(0);
        int k = 0; for (int i = 0; i < 4; i++) { int e = hb[OMEGA + i]; if (e < k || e > OMEGA) return 2; for (int j = k; j < e; j++) { if (j > k && hb[j] <= hb[j - 1]) return 2; h[i][hb[j]] = 1; } k = e; }
        for (int j = k; j < OMEGA; j++) if (hb[j]) return 2;
        if (!ignore_norm) for (auto &p : z) for (int v : p) if (v >= G1 - BETA || v <= -(G1 - BETA)) return 3;
        Bytes mu = shake256(cat({tr, msg}), 64), ct = sub(sig, 0, 32); Poly c = challenge(ct); Bytes w1b;
        for (int i = 0; i < 4; i++) {
            Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = add(t, mul(A.a[i][j], z[j]));
            Poly t1d; for (int n = 0; n < 256; n++) t1d[n] = u.t1[i][n] << D; t = subp(t, mul(c, t1d));
            Poly w1; for (int n = 0; n < 256; n++) w1[n] = usehint(t[n], h[i][n]); putbits(w1b, w1, 6, [](int32_t v) { return (uint32_t)v; });
        }
        return shake256(cat({mu, w1b}), 32) == ct ? 0 : 4;
    }
    bool ok(const Bytes &sig, const Bytes &msg) const { return why(sig, msg) == 0; }
};
}} // namespace
