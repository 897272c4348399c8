// Reference FIPS 202 (written from the standard, deliberately plain).
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline Bytes sub(const Bytes &b, size_t off, size_t n) { return Bytes(b.begin() + off, b.begin() + off + n); }

struct KeccakTables {
    uint64_t rc[24]; int rot[5][5];
    KeccakTables() {
        // round constants from the LFSR x^8+x^6+x^5+x^4+1
        auto rcbit = [](int t) { t %= 255; if (!t) return 1; unsigned r = 1;
            for (int i = 1; i <= t; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; } return (int)(r & 1); };
        for (int ir = 0; ir < 24; ir++) { rc[ir] = 0; for (int j = 0; j <= 6; j++) if (rcbit(j + 7 * ir)) rc[ir] |= 1ULL << ((1 << j) - 1); }
        rot[0][0] = 0; int x = 1, y = 0;
        for (int t = 0; t < 24; t++) { rot[x][y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    }
};
inline const KeccakTables &ktab() { static KeccakTables t; return t; }
inline uint64_t rol64(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
inline void keccakf(uint64_t a[25]) { // a[x+5y]
    const auto &T = ktab();
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ rol64(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d; }
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(a[x + 5 * y], T.rot[x][y]);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= T.rc[r];
    }
}
struct Sponge { // absorb bytewise, then squeeze bytewise
    uint64_t a[25]; unsigned rate, pos; uint8_t ds; bool sq;
    Sponge(unsigned rate_, uint8_t ds_) : rate(rate_), pos(0), ds(ds_), sq(false) { memset(a, 0, sizeof a); }
    void xorb(unsigned i, uint8_t v) { a[i / 8] ^= (uint64_t)v << (8 * (i % 8)); }
    void absorb(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { while (pos % 8 == 0 && pos + 8 <= rate && n - i > 8) { uint64_t v; memcpy(&v, p + i, 8); a[pos / 8] ^= v; i += 8; pos += 8; if (pos == rate) { keccakf(a); pos = 0; } } xorb(pos++, p[i]); if (pos == rate) { keccakf(a); pos = 0; } } }
    void absorb(const Bytes &b) { absorb(b.data(), b.size()); }
    void finish() { xorb(pos, ds); xorb(rate - 1, 0x80); keccakf(a); pos = 0; sq = true; }
    uint8_t next() { if (!sq) finish(); if (pos == rate) { keccakf(a); pos = 0; } uint8_t r = (uint8_t)(a[pos / 8] >> (8 * (pos % 8))); pos++; return r; }
    void squeeze(uint8_t *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = next(); }
    Bytes squeeze(size_t n) { Bytes r(n); squeeze(r.data(), n); return r; }
};
inline Bytes shake256(const Bytes &in, size_t n) { Sponge s(136, 0x1F); s.absorb(in); return s.squeeze(n); }
inline Bytes shake128(const Bytes &in, size_t n) { Sponge s(168, 0x1F); s.absorb(in); return s.squeeze(n); }
inline Bytes sha3(const Bytes &in, unsigned bits) { Sponge s(200 - bits / 4, 0x06); s.absorb(in); return s.squeeze(bits / 8); }
} // namespace ref
