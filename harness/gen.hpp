// Covering arrays and "almost valid" signature generators.
#pragma once
#include "impl.hpp"
namespace gen {
inline uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); b >>= 1; } return r; }
// Row `row` of an array in which every position takes every byte value exactly once per 256 rows (strength 1);
// over all 65536 rows every pair of positions takes every pair of values (strength 2, needs n <= 256).
inline Bytes oa(uint32_t row, size_t n, uint8_t salt = 0) { Bytes b(n); uint8_t a = row & 255, s = row >> 8; for (size_t p = 0; p < n; p++) b[p] = a ^ gmul((uint8_t)(s + 0), (uint8_t)p) ^ (uint8_t)(salt * 29 + p * (salt ? 17 : 0)); return b; }
// strength 3 over all 2^24 rows: every three positions take every three byte values (Reed-Solomon, degree 2)
inline Bytes oa3(uint32_t row, size_t n) { Bytes b = oa(row & 0xFFFF, n); uint8_t c = row >> 16; if (c) for (size_t p = 0; p < n; p++) b[p] ^= gmul(c, gmul((uint8_t)p, (uint8_t)p)); return b; }
// 512 rows in which every pair of positions (n <= 289) takes every pair of the 16 special values: OA(256,17,16,2) over GF(16), once by column/17, once by column%17
inline uint8_t g16(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 8 ? 0x13 : 0); b >>= 1; } return r; }
inline Bytes special(uint32_t row, size_t n) { static const uint8_t V[16] = {0, 1, 2, 3, 0x20, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x0A, 0xED, 0x55}; Bytes b(n); uint8_t x = row & 15, y = row >> 4 & 15; for (size_t p = 0; p < n; p++) { uint8_t c = row >> 8 ? p % 17 : p / 17; b[p] = V[c == 16 ? y : x ^ g16(y, c)]; } return b; }
// 8n rows: the first / last k+1 bytes, or all but the first / last k+1, are 00 or FF, the others arbitrary
inline Bytes runs(uint32_t row, size_t n, const std::string &label) { Bytes b = mc::prf("runs" + label, n); for (auto &v : b) if (!v || v == 0xFF) v = 0x5A; size_t k = row / 8 % n + 1; uint8_t v = row & 1 ? 0xFF : 0; for (size_t p = 0; p < n; p++) { bool in = row & 2 ? p >= n - k : p < k; if (in != !!(row & 4)) b[p] = v; } return b; }
// windows of zero or 0xFF bytes: every start (a multiple of step), lengths 3, 4, 8, 16, 32
inline std::vector<Bytes> windows(size_t n, size_t step, const std::string &label) { std::vector<Bytes> r; Bytes base = mc::prf("win" + label, n); for (auto &v : base) if (!v || v == 0xFF) v = 0xA7; for (size_t p = 0; p < n; p += step) for (size_t k : {3, 4, 8, 16, 32}) if (p + k <= n && (step == 1 || k != 3)) for (int v : {0, 0xFF}) { Bytes b = base; for (size_t j = 0; j < k; j++) b[p + j] = v; r.push_back(b); } return r; }
// 33 lengths at and around the powers of two from 2^10 to 2^20
static const size_t NBIG = 33; inline size_t big(size_t j) { return ((size_t)1 << (10 + j / 3)) - 1 + j % 3; }
// contents classes for plain messages
inline Bytes content(int cls, size_t n, const std::string &label) { switch (cls) { case 0: return mc::prf("msg" + label + std::to_string(n), n); case 1: return Bytes(n, 0); case 2: return Bytes(n, 0xFF); default: { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i + n); return b; } } }
inline Bytes flip(Bytes b, size_t bit) { b[bit / 8] ^= 1 << (bit % 8); return b; }
inline Bytes xorb(Bytes b, size_t pos, uint8_t v) { b[pos] ^= v; return b; }
// --- alterations of an n-byte string that leave folds of it (sum, xor, or of parts) unchanged: every pair of bytes swapped, changed alike, or changed by +1 and -1; every half, word and byte rotation; all bytes inverted
typedef std::function<Bytes(Bytes)> Alter;
inline size_t nfolds(size_t n) { return 3 * (n * (n - 1) / 2) + n; }
inline Bytes fold(Bytes b, size_t j) {
    size_t n = b.size(), np = n * (n - 1) / 2; if (j >= 3 * np) { size_t r = j - 3 * np; if (!r) { for (auto &v : b) v = ~v; return b; } Bytes o = b; std::rotate(o.begin(), o.begin() + r, o.end()); if (o == b) o[0] ^= 1; return o; }
    size_t kind = j / np, q = j % np, p = 0; while (q >= n - 1 - p) { q -= n - 1 - p; p++; } q += p + 1;
    if (kind == 0 && b[p] != b[q]) { std::swap(b[p], b[q]); return b; } if (kind == 2) { b[p]++; b[q]--; return b; } uint8_t v = 1 << ((p * 3 + q) % 8); b[p] ^= v; b[q] ^= v; return b;
}
// --- Ed25519: signature whose encoded commitment differs from the true one (in one bit, or as `f` says), with the scalar belonging to it
inline Bytes ed_wrongR(const Bytes &msg, const Bytes &sk, const Alter &f) {
    using namespace ref; Bytes h = sha512(sub(sk, 0, 32)); ed::clamp(h); U256 a = u256_le(h.data()); U256 r = modL64(sha512(cat({sub(h, 32, 32), msg}))); Bytes R = f(ed::enc(ed::smul_base(r)));
    U256 k = modL64(sha512(cat({R, sub(sk, 32, 32), msg}))); return cat({R, le32(sc_muladd(k, a, r))});
}
inline Bytes ed_wrongR(const Bytes &msg, const Bytes &sk, int bit) { return ed_wrongR(msg, sk, [=](Bytes b) { return flip(b, bit); }); }
// S + k*L, false when it does not fit 256 bits
inline bool ed_shiftS(const Bytes &sig, int k, Bytes &out) { using namespace ref; U256 s = u256_le(sig.data() + 32); for (int i = 0; i < k; i++) if (addc(s, s, Lord())) return false; out = cat({sub(sig, 0, 32), le32(s)}); return true; }
// --- Dilithium: signer with hooks; returns signatures violating exactly one rule
struct DilMut {
    // kind 0: challenge wrong as `f` says (bit `a` when there is none); 1: coefficient (a) forced to the upper side; 2: lower side
    static bool make(const ref::dil::Signer &S, const Bytes &msg, int kind, int a, int32_t want, Bytes &sig, const Alter &f = nullptr) {
        using namespace ref; using namespace ref::dil; const SkU &u = S.u;
        Bytes mu = shake256(cat({u.tr, msg}), 64), rp = shake256(cat({u.key, Bytes(32, 0), mu}), 64);
        for (int kappa = 0; kappa < 400; kappa++) {
            Vec y, w, z; for (int i = 0; i < 4; i++) y[i] = sampleY(rp, (uint16_t)(4 * kappa + i));
            int tp = a >> 8, tn = a & 255;
            if (kind) { for (auto &p : y) for (auto &v : p) { if (v > G1 - 3 * BETA) v -= 4 * BETA; if (v < -(G1 - 3 * BETA)) v += 4 * BETA; } y[tp][tn] = kind == 1 ? want : -want; }
            Bytes w1b; for (int i = 0; i < 4; i++) { Poly t; t.fill(0); for (int j = 0; j < 4; j++) t = dil::add(t, mul(S.A.a[i][j], y[j])); w[i] = t; Poly w1; for (int n = 0; n < 256; n++) { int32_t lo; decompose(t[n], w1[n], lo); } putbits(w1b, w1, 6, [](int32_t v) { return (uint32_t)v; }); }
            Bytes ct = shake256(cat({mu, w1b}), 32); if (!kind) { if (f) ct = f(ct); else ct[a / 8] ^= 1 << (a % 8); }
            Poly c = challenge(ct); bool enc = true; int over = 0; bool target = false;
            for (int i = 0; i < 4; i++) { Poly cs = mul(c, u.s1[i]); for (int n = 0; n < 256; n++) { int32_t v = cent(modq((int64_t)y[i][n] + cs[n])); z[i][n] = v; if (v > G1 || v <= -G1) enc = false; int32_t av = v < 0 ? -v : v; if (av >= G1 - BETA) { over++; if (i == tp && n == tn) target = true; } } }
            if (!enc) continue; if (kind ? !(over == 1 && target) : over != 0) continue;
            std::array<std::array<int, 256>, 4> h; int nh = 0; bool bad = false;
            for (int i = 0; i < 4 && !bad; i++) { Poly cs2 = mul(c, u.s2[i]), ct0 = mul(c, u.t0[i]), r = subp(w[i], cs2); if (Signer::norm(ct0) >= G2) bad = true;
                for (int n = 0; n < 256; n++) { int32_t a1, a0, b1, b0, o1, o0; decompose(w[i][n], o1, o0); decompose(r[n], a1, a0); if (a1 != o1) bad = true; decompose(modq((int64_t)r[n] + ct0[n]), b1, b0); h[i][n] = a1 != b1; nh += h[i][n]; } }
            if (bad || nh > OMEGA) continue;
            sig = pack_sig(ct, z, h); return true;
        }
        return false;
    }
};
// hint-encoding alterations of a valid signature; n-th one, false when there are no more. All must be rejected.
inline std::vector<Bytes> dil_hint_variants(const Bytes &sig) {
    std::vector<Bytes> v; size_t H = 32 + 4 * 576; const uint8_t *h = sig.data() + H; int e[5] = {0, h[80], h[81], h[82], h[83]};
    for (int i = 0; i < 4; i++) {
        for (int j = e[i]; j + 1 < e[i + 1]; j++) { Bytes b = sig; std::swap(b[H + j], b[H + j + 1]); v.push_back(b); b = sig; b[H + j + 1] = b[H + j]; v.push_back(b); }   // order, duplicates
        if (e[i + 1] - e[i] >= 2) { Bytes b = sig; std::swap(b[H + e[i]], b[H + e[i + 1] - 1]); v.push_back(b); }
        if (e[i + 1] > e[i] && e[4] < 80) { // repeat every hint of this polynomial once more (needs a free slot): duplicate adjacent entry
            for (int j = e[i]; j < e[i + 1]; j++) { Bytes b(sig.begin(), sig.begin() + H); Bytes idx(h, h + 80); idx.insert(idx.begin() + j, idx[j]); idx.resize(80); b.insert(b.end(), idx.begin(), idx.end()); for (int q = 0; q < 4; q++) b.push_back(h[80 + q] + (q >= i)); v.push_back(b); } }
    }
    for (int j = e[4]; j < 80; j++) for (int x : {1, 0x80, 0xFF}) { Bytes b = sig; b[H + j] = x; v.push_back(b); }          // non-zero padding
    for (int i = 0; i < 4; i++) for (int x = 0; x < 256; x++) if (x != h[80 + i]) { Bytes b = sig; b[H + 80 + i] = x; v.push_back(b); } // counters
    return v;
}
// --- SPHINCS+: signature that leads to the true root but is checked against a public key whose root differs in bit `bit` (or as `f` says)
inline void sph_wrong_root(const Bytes &sk, const Bytes &msg, const Bytes &opt, int bit, Bytes &pk_mod, Bytes &sig, const Alter &f = nullptr) {
    using namespace ref::sph; pk_mod = sub(sk, 64, 64); if (f) pk_mod = cat({sub(pk_mod, 0, 32), f(sub(pk_mod, 32, 32))}); else pk_mod[32 + bit / 8] ^= 1 << (bit % 8);
    Bytes R = msg_R(sk, opt, msg); sig = R; Digest d = digest(R, pk_mod, msg); Hs h = hs_of(sk.data() + 64, sk.data()); fors_sign(h, d, sig); Node m = fors_pk_from_sig(h, sig.data() + 32, d); uint64_t tree = d.tree; uint32_t leaf = d.leaf;
    for (int l = 0; l < D; l++) { Bytes x(XM); m = merkle_root(h, l, tree, leaf, &m, x.data()); sig.insert(sig.end(), x.begin(), x.end()); leaf = tree & 15; tree >>= 4; }
}
}
