// Reference Salsa20/HSalsa20/XSalsa20, Poly1305, secretbox and box.
#pragma once
#include "ed.hpp"
namespace ref {
inline void salsa_rounds(uint32_t x[16]) {
    auto r = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
    auto qr = [&](int a, int b, int c, int d) { x[b] ^= r(x[a] + x[d], 7); x[c] ^= r(x[b] + x[a], 9); x[d] ^= r(x[c] + x[b], 13); x[a] ^= r(x[d] + x[c], 18); };
    for (int i = 0; i < 10; i++) { qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11); qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14); }
}
inline uint32_t ld32le(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
inline void salsa_init(uint32_t x[16], const uint8_t *in, const uint8_t *k, const uint8_t *c) { for (int i = 0; i < 4; i++) { x[5 * i] = ld32le(c + 4 * i); x[1 + i] = ld32le(k + 4 * i); x[6 + i] = ld32le(in + 4 * i); x[11 + i] = ld32le(k + 16 + 4 * i); } }
inline const uint8_t *sigma() { return (const uint8_t *)"expand 32-byte k"; }
inline Bytes core_salsa20(const Bytes &in, const Bytes &k, const uint8_t *c) { uint32_t x[16], y[16]; salsa_init(x, in.data(), k.data(), c); memcpy(y, x, sizeof x); salsa_rounds(x); Bytes o(64); for (int i = 0; i < 16; i++) { uint32_t v = x[i] + y[i]; for (int j = 0; j < 4; j++) o[4 * i + j] = (uint8_t)(v >> (8 * j)); } return o; }
inline Bytes core_hsalsa20(const Bytes &in, const Bytes &k, const uint8_t *c) { uint32_t x[16]; salsa_init(x, in.data(), k.data(), c); salsa_rounds(x); int id[8] = {0, 5, 10, 15, 6, 7, 8, 9}; Bytes o(32); for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) o[4 * i + j] = (uint8_t)(x[id[i]] >> (8 * j)); return o; }
inline Bytes salsa20(size_t n, const Bytes &nonce8, const Bytes &k) { Bytes o; for (uint64_t b = 0; o.size() < n; b++) { Bytes in = nonce8; for (int i = 0; i < 8; i++) in.push_back((uint8_t)(b >> (8 * i))); Bytes x = core_salsa20(in, k, sigma()); o.insert(o.end(), x.begin(), x.end()); } o.resize(n); return o; }
inline Bytes xsalsa20(size_t n, const Bytes &nonce24, const Bytes &k) { Bytes s = core_hsalsa20(sub(nonce24, 0, 16), k, sigma()); return salsa20(n, sub(nonce24, 16, 8), s); }
inline Bytes poly1305(const Bytes &m, const Bytes &k) {
    // arithmetic mod 2^130-5 on 5x26-free representation: use U256 with lazy reduction
    U256 r = u256_le(k.data()); r.v[2] = r.v[3] = 0; r.v[0] &= 0x0ffffffc0fffffffULL; r.v[1] &= 0x0ffffffc0ffffffcULL; U256 s; for (int i = 0; i < 16; i++) s.v[i / 8] |= (uint64_t)k[16 + i] << (8 * (i % 8));
    U256 p; p.v[0] = ~0ULL - 4; p.v[1] = ~0ULL; p.v[2] = 3; U256 h;
    for (size_t o = 0; o < m.size(); o += 16) { U256 c; size_t n = std::min<size_t>(16, m.size() - o); for (size_t i = 0; i < n; i++) c.v[i / 8] |= (uint64_t)m[o + i] << (8 * (i % 8)); c.v[n / 8] |= 1ULL << (8 * (n % 8)); addc(h, h, c);
        uint64_t t[8]; mul512(t, h, r); // < 2^(131+124)
        U256 lo, hi; lo.v[0] = t[0]; lo.v[1] = t[1]; lo.v[2] = t[2] & 3; for (int i = 0; i < 4; i++) hi.v[i] = t[2 + i] >> 2 | (i + 3 < 8 ? t[3 + i] << 62 : 0);
        U256 h5; for (int i = 0; i < 5; i++) addc(h5, h5, hi); addc(h, lo, h5); while (cmp(h, p) >= 0) { // fold again
            U256 q; q.v[0] = h.v[2] >> 2 | h.v[3] << 62; q.v[1] = h.v[3] >> 2; if (fzero(q)) { subb(h, h, p); break; } U256 l = h; l.v[2] &= 3; l.v[3] = 0; U256 q5; for (int i = 0; i < 5; i++) addc(q5, q5, q); addc(h, l, q5); } }
    U256 o; addc(o, h, s); Bytes r16 = le32(o); r16.resize(16); return r16;
}
inline Bytes secretbox(const Bytes &m /*32 zero bytes first*/, const Bytes &n, const Bytes &k) { Bytes st = xsalsa20(m.size(), n, k), c(m.size()); for (size_t i = 0; i < m.size(); i++) c[i] = m[i] ^ st[i]; Bytes tag = poly1305(sub(c, 32, c.size() - 32), sub(c, 0, 32)); for (int i = 0; i < 16; i++) { c[i] = 0; c[16 + i] = tag[i]; } return c; }
inline Bytes box_beforenm(const Bytes &pk, const Bytes &sk) { return core_hsalsa20(Bytes(16, 0), x25519(sk, pk), sigma()); }
} // namespace ref
