// Reference SPHINCS+-SHAKE-256f-simple (from the round-3.1/FIPS-205-style description), plain recursion.
#pragma once
#include "keccak.hpp"
namespace ref { namespace sph {
static const int NB = 32, D = 17, HP = 4, KF = 35, AF = 9, WLEN = 67;
static const size_t PK = 64, SK = 128, SIG = 49856, FORS = (size_t)KF * (AF + 1) * 32, XM = (size_t)(WLEN + HP) * 32;
enum { WOTS_HASH = 0, WOTS_PK = 1, TREE = 2, FORS_TREE = 3, FORS_ROOTS = 4, WOTS_PRF = 5, FORS_PRF = 6 };
struct Adrs { uint32_t layer = 0; uint64_t tree = 0; uint32_t type = 0, kp = 0, w2 = 0, w3 = 0;
    void ser(uint8_t o[32]) const { memset(o, 0, 32); auto be = [&](int at, uint64_t v, int n) { for (int i = 0; i < n; i++) o[at + i] = (uint8_t)(v >> (8 * (n - 1 - i))); };
        be(0, layer, 4); be(8, tree, 8); be(16, type, 4); be(20, kp, 4); be(24, w2, 4); be(28, w3, 4); } };
typedef std::array<uint8_t, 32> Node;
struct Hs { // tweakable hash family under one public seed
    Node pub, skseed;
    Node T(const Adrs &a, const uint8_t *in, size_t n) const { Sponge s(136, 0x1F); uint8_t ab[32]; a.ser(ab); s.absorb(pub.data(), 32); s.absorb(ab, 32); s.absorb(in, n); Node r; s.squeeze(r.data(), 32); return r; }
    Node prf(const Adrs &a) const { return T(a, skseed.data(), 32); }
    Node H(const Adrs &a, const Node &l, const Node &r) const { uint8_t b[64]; memcpy(b, l.data(), 32); memcpy(b + 32, r.data(), 32); return T(a, b, 64); }
};
inline void digits(const Node &m, int d[67]) { int cs = 0; for (int i = 0; i < 32; i++) { d[2 * i] = m[i] >> 4; d[2 * i + 1] = m[i] & 15; } for (int i = 0; i < 64; i++) cs += 15 - d[i]; d[64] = cs >> 8 & 15; d[65] = cs >> 4 & 15; d[66] = cs & 15; }
inline Node chain(const Hs &h, Node x, int from, int steps, Adrs a) { for (int i = from; i < from + steps; i++) { a.w3 = i; x = h.T(a, x.data(), 32); } return x; }
inline Node wots_leaf(const Hs &h, uint32_t layer, uint64_t tree, uint32_t kp, const Node *m, uint8_t *sig) {
    int d[67]; if (m) digits(*m, d); uint8_t buf[67 * 32];
    for (int i = 0; i < 67; i++) { Adrs a; a.layer = layer; a.tree = tree; a.kp = kp; a.w2 = i; a.type = WOTS_PRF; Node x = h.prf(a); a.type = WOTS_HASH;
        if (m) { x = chain(h, x, 0, d[i], a); memcpy(sig + 32 * i, x.data(), 32); x = chain(h, x, d[i], 15 - d[i], a); } else x = chain(h, x, 0, 15, a);
        memcpy(buf + 32 * i, x.data(), 32); }
    Adrs a; a.layer = layer; a.tree = tree; a.kp = kp; a.type = WOTS_PK; return h.T(a, buf, sizeof buf);
}
inline Node wots_from_sig(const Hs &h, uint32_t layer, uint64_t tree, uint32_t kp, const Node &m, const uint8_t *sig) {
    int d[67]; digits(m, d); uint8_t buf[67 * 32];
    for (int i = 0; i < 67; i++) { Adrs a; a.layer = layer; a.tree = tree; a.kp = kp; a.w2 = i; a.type = WOTS_HASH; Node x; memcpy(x.data(), sig + 32 * i, 32); x = chain(h, x, d[i], 15 - d[i], a); memcpy(buf + 32 * i, x.data(), 32); }
    Adrs a; a.layer = layer; a.tree = tree; a.kp = kp; a.type = WOTS_PK; return h.T(a, buf, sizeof buf);
}
inline Node merkle_root(const Hs &h, uint32_t layer, uint64_t tree, int32_t leaf = -1, const Node *m = nullptr, uint8_t *sig = nullptr) { // sig: wots + auth
    std::vector<Node> lv(16); for (int i = 0; i < 16; i++) lv[i] = wots_leaf(h, layer, tree, i, i == leaf ? m : nullptr, sig);
    for (int ht = 1; ht <= 4; ht++) { if (leaf >= 0) memcpy(sig + (67 + ht - 1) * 32, lv[(leaf >> (ht - 1)) ^ 1].data(), 32); std::vector<Node> nx; for (size_t i = 0; i + 1 < lv.size(); i += 2) { Adrs a; a.layer = layer; a.tree = tree; a.type = TREE; a.w2 = ht; a.w3 = i / 2; nx.push_back(h.H(a, lv[i], lv[i + 1])); } lv = nx; }
    return lv[0];
}
inline Node climb(const Hs &h, Node x, uint32_t leaf, uint32_t off, const uint8_t *auth, int height, Adrs a) {
    for (int ht = 1; ht <= height; ht++) { Node s; memcpy(s.data(), auth + 32 * (ht - 1), 32); a.w2 = ht; a.w3 = (leaf + off) >> ht; x = (leaf >> (ht - 1)) & 1 ? h.H(a, s, x) : h.H(a, x, s); } return x;
}
struct Digest { uint32_t fors[35]; uint64_t tree; uint32_t leaf; uint8_t md[40]; };
inline Digest digest_of(const Bytes &o) { // o: the 49 bytes of H_msg
    Digest d; memcpy(d.md, o.data(), 40);
    for (int i = 0; i < 35; i++) { d.fors[i] = 0; for (int j = 0; j < 9; j++) { int b = 9 * i + j; d.fors[i] = d.fors[i] << 1 | (o[b >> 3] >> (7 - (b & 7)) & 1); } }
    d.tree = 0; for (int i = 0; i < 8; i++) d.tree = d.tree << 8 | o[40 + i]; d.leaf = o[48] & 15; return d;
}
inline Digest digest(const Bytes &R, const Bytes &pk, const Bytes &msg) { return digest_of(shake256(cat({R, pk, msg}), 40 + 8 + 1)); }
inline Node fors_pk_from_sig(const Hs &h, const uint8_t *sig, const Digest &d) {
    uint8_t roots[35 * 32];
    for (int i = 0; i < 35; i++) { Adrs a; a.tree = d.tree; a.kp = d.leaf; a.type = FORS_TREE; a.w3 = i * 512 + d.fors[i]; Node x; memcpy(x.data(), sig, 32); x = h.T(a, x.data(), 32); x = climb(h, x, d.fors[i], i * 512, sig + 32, 9, a); memcpy(roots + 32 * i, x.data(), 32); sig += 320; }
    Adrs a; a.tree = d.tree; a.kp = d.leaf; a.type = FORS_ROOTS; return h.T(a, roots, sizeof roots);
}
inline void fors_sign(const Hs &h, const Digest &d, Bytes &out) {
    for (int i = 0; i < 35; i++) { std::vector<Node> lv(512); Adrs a; a.tree = d.tree; a.kp = d.leaf;
        for (int j = 0; j < 512; j++) { a.w2 = 0; a.w3 = i * 512 + j; a.type = FORS_PRF; Node s = h.prf(a); if ((uint32_t)j == d.fors[i]) out.insert(out.end(), s.begin(), s.end()); a.type = FORS_TREE; lv[j] = h.T(a, s.data(), 32); }
        for (int ht = 1; ht <= 9; ht++) { Node &s = lv[(d.fors[i] >> (ht - 1)) ^ 1]; out.insert(out.end(), s.begin(), s.end()); std::vector<Node> nx; for (size_t j = 0; j + 1 < lv.size(); j += 2) { a.type = FORS_TREE; a.w2 = ht; a.w3 = (i << (9 - ht)) + j / 2; nx.push_back(h.H(a, lv[j], lv[j + 1])); } lv = nx; } }
}
inline Hs hs_of(const uint8_t *pub, const uint8_t *sks) { Hs h; memcpy(h.pub.data(), pub, 32); if (sks) memcpy(h.skseed.data(), sks, 32); else h.skseed.fill(0); return h; }
inline void keygen(const Bytes &seed, Bytes &pk, Bytes &sk) { Hs h = hs_of(seed.data() + 64, seed.data()); Node r = merkle_root(h, D - 1, 0); Bytes root(r.begin(), r.end()); pk = cat({sub(seed, 64, 32), root}); sk = cat({seed, root}); }
inline Bytes msg_R(const Bytes &sk, const Bytes &optrand, const Bytes &msg) { return shake256(cat({sub(sk, 32, 32), optrand, msg}), 32); }
inline Bytes sign_digest(const Bytes &sk, const Bytes &R, const Digest &d) {
    Bytes sig = R; Hs h = hs_of(sk.data() + 64, sk.data());
    fors_sign(h, d, sig); Node m = fors_pk_from_sig(h, sig.data() + 32, d); uint64_t tree = d.tree; uint32_t leaf = d.leaf;
    for (int l = 0; l < D; l++) { Bytes x(XM); m = merkle_root(h, l, tree, leaf, &m, x.data()); sig.insert(sig.end(), x.begin(), x.end()); leaf = tree & 15; tree >>= 4; }
    return sig;
}
inline Bytes sign(const Bytes &sk, const Bytes &optrand, const Bytes &msg) { Bytes R = msg_R(sk, optrand, msg); return sign_digest(sk, R, digest(R, sub(sk, 64, 64), msg)); }
inline bool verify(const Bytes &sig, const Bytes &msg, const Bytes &pk) {
    if (sig.size() != SIG) return false;
    Digest d = digest(sub(sig, 0, 32), pk, msg); Hs h = hs_of(pk.data(), nullptr); const uint8_t *p = sig.data() + 32; Node m = fors_pk_from_sig(h, p, d); p += FORS; uint64_t tree = d.tree; uint32_t leaf = d.leaf;
    for (int l = 0; l < D; l++) { Node x = wots_from_sig(h, l, tree, leaf, m, p); p += 67 * 32; Adrs a; a.layer = l; a.tree = tree; a.type = TREE; m = climb(h, x, leaf, 0, p, 4, a); p += 128; leaf = tree & 15; tree >>= 4; }
    return !memcmp(m.data(), pk.data() + 32, 32);
}
}} // namespace
