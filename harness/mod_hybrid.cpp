// Explorers of the hybrid interface.
#include "gen.hpp"
using namespace im; using namespace gen; using mc::fmt; using mc::hex;

static void check_accept(int mode, const Bytes &sm, const Bytes &msg, const Bytes &pk, const char *what, bool also_verify = true) {
    OpenRes o = im::open(mode, sm, pk); if (o.rc) mc::fail("%s: %s open rejected (rc %d) a valid signature of a %zu-byte message", what, mname(mode), o.rc, msg.size());
    if (o.m != msg) mc::fail("%s: %s open returned %s instead of %s", what, mname(mode), hex(o.m, 64).c_str(), hex(msg, 64).c_str());
    if (also_verify) { int rc = im::verify(mode, msg, sm, pk); if (rc) mc::fail("%s: %s verify rejected (rc %d) a valid signature of a %zu-byte message", what, mname(mode), rc, msg.size()); }
}
static void check_reject(int mode, const Bytes &sm, const Bytes &msg, const Bytes &pk, const char *what, int which = 3) {
    if (which & 1) { OpenRes o = im::open(mode, sm, pk); if (!o.rc) mc::fail("%s: %s open accepted it and returned %s", what, mname(mode), hex(o.m, 64).c_str()); }
    if (which & 2) { int rc = im::verify(mode, msg, sm, pk); if (!rc) mc::fail("%s: %s verify accepted it for message %s", what, mname(mode), hex(msg, 64).c_str()); }
}
// one full round trip against the model
static void roundtrip(int mode, const Bytes &msg, int k, const std::string &tape, const Bytes &prefix, bool verify_too, bool left) {
    const RefKey &rk = rkey(k); env::reset(tape); env::rng.prefix = prefix; size_t need = mode == COMPACT ? 40 : 32; Bytes rnd = cat({prefix, env::expect(tape, prefix.size(), need > prefix.size() ? need - prefix.size() : 0)}); rnd.resize(need);
    SignRes s = im::sign(mode, msg, rk.k.sk, left); if (s.rc) mc::fail("%s sign failed with %d on a valid %zu-byte message", mname(mode), s.rc, msg.size());
    Bytes want; size_t n = msg.size();
    if (mode == COMPACT) { want = ref_compact(rk, msg, rnd); if (s.sm != want) { size_t i = 0; while (s.sm[i] == want[i]) i++; mc::fail("compact signature of %zu-byte message %s differs from the documented composition at byte %zu", n, hex(msg, 64).c_str(), i); } }
    else {
        Bytes head = cat({Bytes{2, (uint8_t)n}, ref::ed::sign(msg, rk.ed_sk), msg, rk.dsign(msg)}); if (sub(s.sm, 0, head.size()) != head) { size_t i = 0; while (s.sm[i] == head[i]) i++; mc::fail("full signature of %zu-byte message differs from the documented composition at byte %zu", n, i); }
        Bytes ss = sub(s.sm, head.size(), 49856); if (sub(ss, 0, 32) != ref::sph::msg_R(rk.sph_sk, rnd, msg)) mc::fail("SPHINCS+ randomizer in full signature is not the prescribed function of key, randomness and message"); if (!ref::sph::verify(ss, msg, rk.sph_pk)) mc::fail("SPHINCS+ part of a full signature is not valid by the specification (%zu-byte message)", n);
    }
    check_accept(mode, s.sm, msg, rk.k.pk, "round trip", verify_too); mc::trace(); mc::outcome(mode == COMPACT ? "compact round trip" : "full round trip");
}
static const int NK = 3;
static uint64_t keys_setup(int n) { for (int i = 0; i < n; i++) rkey(i); return 0; }
// ---------------------------------------------------------------- C01
static mc::Reg r1({"h_len_compact", "compact mode: every message length 1..64 x 4 content classes x 3 key pairs x 2 buffer placements",
    [](int) { keys_setup(NK); return 64ull * 4 * NK * 2; },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64), c = x.take(4), k = x.take(NK), l = x.take(2); roundtrip(COMPACT, content(c, n, "c"), k, fmt("rt%lu", (unsigned long)i), Bytes(), true, l); },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64), c = x.take(4), k = x.take(NK); return fmt("compact sign/open/verify mlen=%d content=%d key=%d", n, c, k); }});
static mc::Reg r2({"h_bytes_compact", "compact mode: covering array over message (64) and nonce (40) bytes: every position takes every value (quick), every pair of positions every pair of values (thorough)",
    [](int t) { keys_setup(1); return t ? 65536ull : 2048ull; },
    [](uint64_t i) { static const int lens[8] = {64, 1, 63, 32, 33, 2, 48, 17}; uint32_t row = mc::tier ? i : (uint32_t)((i & 255) | (i >> 8) * 7 << 8); Bytes all = oa(row, 104); int n = mc::tier ? 64 : lens[i >> 8]; roundtrip(COMPACT, sub(all, 40, n), 0, "x", sub(all, 0, 40), false, false); },
    [](uint64_t i) { return fmt("compact round trip, covering-array row %lu", (unsigned long)i); }});
static std::vector<Bytes> wm, wk;
static mc::Reg r2b({"h_special", "compact mode: every pair of positions of message (64 or 33) and nonce (40) takes every pair of 16 special values; every leading/trailing run and every window of 3..32 zero or 0xFF bytes in message and nonce",
    [](int) { keys_setup(1); if (wm.empty()) wm = windows(104, 1, "m"); return 512ull * 2 + 512 + 320 + wm.size(); },
    [](uint64_t i) { if (i < 1024) { Bytes a = special(i & 511, 104); roundtrip(COMPACT, sub(a, 40, i < 512 ? 64 : 33), 0, "x", sub(a, 0, 40), i % 8 == 0, i & 1); return; } i -= 1024; if (i >= 832) { const Bytes &a = wm[i - 832]; roundtrip(COMPACT, sub(a, 40, 64), 0, "x", sub(a, 0, 40), i % 8 == 0, i & 1); } else if (i < 512) roundtrip(COMPACT, runs(i, 64, "m"), 0, fmt("run%lu", (unsigned long)i), Bytes(), true, i & 1); else roundtrip(COMPACT, content(0, 1 + i % 64, "rn"), 0, "x", runs(i - 512, 40, "n"), false, i & 1); },
    [](uint64_t i) { return fmt("compact round trip, special row %lu", (unsigned long)i); }});
static mc::Reg r3({"h_len_full", "full mode: every message length 1..64 x content classes x key pairs",
    [](int t) { keys_setup(NK); return 64ull * (t ? 4 * NK : 2); },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64), c = x.take(mc::tier ? 4 : 2), k = mc::tier ? x.take(NK) : c; roundtrip(FULL, content(c ? c : 0, n, "f"), k, fmt("rf%lu", (unsigned long)i), Bytes(), true, n & 1); },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64); return fmt("full sign/open/verify mlen=%d class=%lu", n, (unsigned long)x.i); }});
static mc::Reg r4({"h_bytes_full", "full mode: covering array over message and signing-randomness bytes, every position takes every value",
    [](int t) { keys_setup(1); return t ? 2048ull : 256ull; },
    [](uint64_t i) { Bytes all = oa((uint32_t)((i & 255) | (i >> 8) * 11 << 8), 96); roundtrip(FULL, sub(all, 32, i < 256 ? 64 : 1 + (i * 7) % 64), 0, "x", sub(all, 0, 32), false, false); },
    [](uint64_t i) { return fmt("full round trip, covering-array row %lu", (unsigned long)i); }});
static mc::Reg r4b({"h_special_full", "full mode: every pair of positions of message (64) and signing randomness (32) takes every pair of 16 special values; every leading/trailing run of zero or 0xFF bytes in the message (thorough: also their complements and runs in the randomness)",
    [](int t) { keys_setup(1); return t ? 512ull + 512 + 256 : 512ull + 256; },
    [](uint64_t i) { if (i < 512) { Bytes a = special((uint32_t)i, 96); roundtrip(FULL, sub(a, 32, 64), 0, "x", sub(a, 0, 32), i % 4 == 0, i & 1); return; } i -= 512; uint32_t row = mc::tier ? (uint32_t)i : (uint32_t)((i & 3) | i >> 2 << 3); if (mc::tier && i >= 512) roundtrip(FULL, content(0, 1 + i % 64, "rn"), 0, "x", runs((uint32_t)(i - 512), 32, "n"), false, i & 1); else roundtrip(FULL, runs(row, 64, "m"), 0, fmt("runf%u", row), Bytes(), i % 4 == 0, i & 1); },
    [](uint64_t i) { return fmt("full round trip, special row %lu", (unsigned long)i); }});
static mc::Reg r5({"h_keys", "round trips under many key pairs (seeds from a covering array: every seed byte takes every value): compact for each, full for every 8th",
    [](int t) { return t ? 2048ull : 256ull; },
    [](uint64_t i) { Bytes seed = oa((uint32_t)((i & 255) | (i >> 8) * 5 << 8), 160); Key k = keypair_seed(seed); RefKey rk(k); Key want = ref_keypair(seed); if (want.pk != k.pk || want.sk != k.sk) mc::fail("key pair for seed %s differs from the specification", hex(seed, 160).c_str());
        Bytes msg = content(0, 1 + i % 64, "k"); env::reset(fmt("k%lu", (unsigned long)i)); SignRes s = im::sign(COMPACT, msg, k.sk); if (s.rc) mc::fail("compact sign failed with %d", s.rc); if (s.sm != ref_compact(rk, msg, env::expect(env::rng.tape, 0, 40))) mc::fail("compact signature differs from the specification under seed %s", hex(seed, 160).c_str()); check_accept(COMPACT, s.sm, msg, k.pk, "key sweep", false);
        if (i % 8 == 0) { s = im::sign(FULL, msg, k.sk); if (s.rc) mc::fail("full sign failed with %d", s.rc); check_accept(FULL, s.sm, msg, k.pk, "key sweep", true); }
        mc::trace(); },
    [](uint64_t i) { return fmt("key pair from covering-array seed row %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C02
// parts: 0 own; 1 other key; 2 other message; 3 other nonce / compact digest in full; 4 raw message (compact) ; 5 corrupt; 6 other SPHINCS key in digest; 7 zero
struct Fix { Bytes msg, msg2, nonce, nonce2; std::vector<Bytes> ce, cd, fe, fd, fs; };
static std::vector<Fix> fx; static std::vector<Bytes> pks;
static const int LENS2[3] = {64, 1, 33};
static uint64_t comp_setup(int t, bool full) {
    keys_setup(2); fx.clear(); int nl = t ? 3 : 2;
    for (int q = 0; q < nl; q++) {
        Fix f; f.msg = content(0, LENS2[q], "A"); f.msg2 = content(0, LENS2[q], "B"); f.nonce = mc::prf("n1", 40); f.nonce2 = mc::prf("n2", 40);
        const RefKey &a = rkey(0), &b = rkey(1); Bytes h = a.cdigest(f.nonce, f.msg), hm = a.cdigest(f.nonce, f.msg2), hn = a.cdigest(f.nonce2, f.msg), hp = b.cdigest(f.nonce, f.msg);
        if (!full) {
            for (auto &m : {h, h, hm, hn, f.msg, h, hp}) { bool ok = f.ce.size() == 1; f.ce.push_back(ref::ed::sign(m, (ok ? b : a).ed_sk)); f.cd.push_back((ok ? b : a).dsign(m)); }
            f.ce[5] = flip(f.ce[5], 77); f.cd[5] = flip(f.cd[5], 9001); f.ce.push_back(Bytes(64, 0)); f.cd.push_back(Bytes(2420, 0));
            f.ce.push_back(ref::ed::sign(hp, b.ed_sk)); f.cd.push_back(b.dsign(hp)); // wholly B's
        } else {
            std::vector<Bytes> ms = {f.msg, f.msg, f.msg2, h, f.msg};
            for (size_t j = 0; j < 5; j++) { const RefKey &k = j == 1 ? b : a; f.fe.push_back(ref::ed::sign(ms[j], k.ed_sk)); f.fd.push_back(k.dsign(ms[j])); f.fs.push_back(ref::sph::sign(k.sph_sk, Bytes(32, 9), ms[j])); }
            f.fe[4] = flip(f.fe[4], 77); f.fd[4] = flip(f.fd[4], 9001); f.fs[4] = flip(f.fs[4], 8 * 49855);
            f.fe.push_back(Bytes(64, 0)); f.fd.push_back(Bytes(2420, 0)); f.fs.push_back(Bytes(49856, 0));
        }
        fx.push_back(f);
    }
    pks.clear(); for (int c = 0; c < 8; c++) pks.push_back(cat({sub(key(c & 1).pk, 0, 32), sub(key(c >> 1 & 1).pk, 32, 1312), sub(key(c >> 2 & 1).pk, 1344, 64)}));
    return full ? (uint64_t)nl * 6 * 6 * 6 * 8 : (uint64_t)nl * 9 * 9 * 8;
}
static void compare_model(int mode, const Bytes &sm, const Bytes &pk, const Bytes &msg, const char *what) {
    Bytes m; bool ok = ref_open(mode, sm, pk, m); if (ok) check_accept(mode, sm, m, pk, what); else check_reject(mode, sm, msg, pk, what);
    mc::trace(); mc::outcome(ok ? "model accepts" : "model rejects");
}
static std::string ddesc_c(uint64_t i) { mc::Idx x(i); int e = x.take(9), d = x.take(9), p = x.take(8); return fmt("compact: ed25519 part kind %d, dilithium part kind %d, public key mix %d (0 own,1 other key,2 other message,3 other nonce,4 raw message,5 corrupt,6 other SPHINCS+ key,7 zero,8 wholly other key)", e, d, p); }
static mc::Reg r6({"h_parts_compact", "compact mode: 9 kinds of Ed25519 part x 9 kinds of Dilithium part x 8 mixtures of two public keys x message lengths",
    [](int t) { return comp_setup(t, false); },
    [](uint64_t i) { mc::Idx x(i); int e = x.take(9), d = x.take(9), p = x.take(8); Fix &f = fx[x.i]; Bytes sm = asm_compact(f.msg, f.ce[e], f.cd[d], f.nonce); compare_model(COMPACT, sm, pks[p], f.msg, ddesc_c(i).c_str()); },
    ddesc_c});
static std::string ddesc_f(uint64_t i) { mc::Idx x(i); int e = x.take(6), d = x.take(6), s = x.take(6), p = x.take(8); return fmt("full: ed25519 part kind %d, dilithium part kind %d, sphincs part kind %d, public key mix %d (0 own,1 other key,2 other message,3 compact digest,4 corrupt,5 zero)", e, d, s, p); }
static mc::Reg r7({"h_parts_full", "full mode: 6 kinds of each of the three parts x 8 mixtures of two public keys x message lengths",
    [](int t) { return comp_setup(t, true); },
    [](uint64_t i) { mc::Idx x(i); int e = x.take(6), d = x.take(6), s = x.take(6), p = x.take(8); Fix &f = fx[x.i]; Bytes sm = asm_full(f.msg, f.fe[e], f.fd[d], f.fs[s]); compare_model(FULL, sm, pks[p], f.msg, ddesc_f(i).c_str()); },
    ddesc_f});
// cross-mode and near-valid assemblies
static mc::Reg r8({"h_crossmode", "signatures of one mode (and re-arranged or truncated parts) presented to the other mode, with every mode id 0..3 and all message lengths",
    [](int) { keys_setup(1); return 64ull * 2 * 4 * 4; },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64), mode = x.take(2), id = x.take(4), how = x.take(4); const RefKey &k = rkey(0); Bytes msg = content(0, n, "X"), nonce = mc::prf("xn", 40), h = k.cdigest(nonce, msg); static Bytes sph0; if (sph0.empty()) sph0 = mc::prf("sp", 49856);
        Bytes sm; switch (how) { case 0: sm = asm_compact(msg, ref::ed::sign(h, k.ed_sk), k.dsign(h), nonce); break; case 1: sm = asm_full(msg, ref::ed::sign(msg, k.ed_sk), k.dsign(msg), sph0); break;
            case 2: sm = asm_compact(msg, ref::ed::sign(msg, k.ed_sk), k.dsign(msg), nonce); break; default: sm = cat({Bytes{1, (uint8_t)n}, ref::ed::sign(msg, k.ed_sk), msg, k.dsign(msg)}); }
        sm[0] = (uint8_t)id; compare_model(mode, sm, k.k.pk, msg, "cross-mode assembly"); },
    [](uint64_t i) { mc::Idx x(i); int n = 1 + x.take(64), mode = x.take(2), id = x.take(4), how = x.take(4); return fmt("mlen %d assembly %d with id %d given to %s open/verify", n, how, id, mname(mode)); }});
// every single part damaged, over message lengths and over message/nonce/key contents
static void damage(int mode, const Bytes &sm, const Bytes &msg, const Bytes &pk, uint64_t i, int per, const char *what) {
    size_t n = msg.size(), off[3] = {2, mode == COMPACT ? 66 : 66 + n, 66 + n + 2420}, len[3] = {64, 2420, 49856}; int parts = mode == COMPACT ? 2 : 3; size_t po[3] = {0, 32, 1344}, pl[3] = {32, 1312, 64};
    for (int q = 0; q < parts; q++) for (int j = 0; j < per; j++) { size_t at = (i * 977 + j * (len[q] / per + 1)) % len[q]; if (q == 0) at = (per == 1 ? i : j) % 2 ? 32 + at % 32 : at % 32; check_reject(mode, flip(sm, 8 * (off[q] + at) + (i + j) % 8), msg, pk, fmt("%s: part %d damaged at byte %zu", what, q, at).c_str(), per > 2 ? 3 : 1 + (i + j + q) % 2); }
    for (int q = 0; q < 3; q++) { if (per == 1 && (i + q) % 4) continue; size_t at = (i * 131 + q) % pl[q]; check_reject(mode, sm, msg, flip(pk, 8 * (po[q] + at) + i % 8), fmt("%s: public key part %d altered at byte %zu", what, q, at).c_str(), per > 2 ? 3 : 1 + (i + q) % 2); }
    if (mode == COMPACT) { size_t at = i % 40; check_reject(mode, flip(sm, 8 * (2486 + at) + i % 8), msg, pk, fmt("%s: nonce altered at byte %zu", what, at).c_str(), 1 + i % 2); }
}
static mc::Reg r8b({"h_parts_len", "every message length 1..64, both modes: each part of the signature damaged alone in 6 places, each part of the public key altered alone; open and verify must refuse",
    [](int) { keys_setup(1); return 64ull * 2; },
    [](uint64_t i) { int mode = i % 2; size_t n = 1 + i / 2; Bytes msg = content(0, n, "pl"); env::reset("pl"); SignRes s = im::sign(mode, msg, key(0).sk); if (s.rc) mc::fail("sign failed"); check_accept(mode, s.sm, msg, key(0).pk, "base"); damage(mode, s.sm, msg, key(0).pk, i, 6, fmt("%zu-byte message", n).c_str()); mc::trace(); },
    [](uint64_t i) { return fmt("%s mode, %lu-byte message, each part damaged", mname(i % 2), (unsigned long)(1 + i / 2)); }});
static std::vector<Bytes> pvw;
static mc::Reg r8c({"h_parts_values", "each part of the signature and of the public key damaged alone while message and nonce bytes take every value at every position, every pair of 16 special values at every pair of positions, and zero or 0xFF runs and windows (compact; full mode: every value at every position)",
    [](int) { keys_setup(1); if (pvw.empty()) pvw = windows(104, 1, "pv"); return 1024ull + 1024 + 832 + pvw.size() + 256; },
    [](uint64_t i) { uint64_t i0 = i; const Key &k = key(0); Bytes a, msg, pre; int mode = COMPACT;
        if (i < 1024) { a = oa((uint32_t)((i & 255) | (i >> 8) * 7 << 8), 104); msg = sub(a, 40, (size_t[]){64, 1, 33, 40}[i >> 8]); } else if ((i -= 1024) < 1024) { a = special(i & 511, 104); msg = sub(a, 40, i < 512 ? 64 : 32); } else if ((i -= 1024) < 832) { a = runs(i, 104, "pv"); msg = sub(a, 40, 64); } else if ((i -= 832) < pvw.size()) { a = pvw[i]; msg = sub(a, 40, 64); } else { i -= pvw.size(); mode = FULL; a = oa((uint32_t)i, 96); msg = sub(a, 32, 64); }
        env::reset("x"); env::rng.prefix = sub(a, 0, mode == COMPACT ? 40 : 32); SignRes s = im::sign(mode, msg, k.sk); if (s.rc) mc::fail("sign failed"); check_accept(mode, s.sm, msg, k.pk, "base", i0 & 1); damage(mode, s.sm, msg, k.pk, i0, mc::tier ? 2 : 1, fmt("row %lu", (unsigned long)i0).c_str()); mc::trace(); },
    [](uint64_t i) { return fmt("message/nonce row %lu, each part damaged", (unsigned long)i); }});
static mc::Reg r8d({"h_parts_pk", "compact mode: SPHINCS+ public keys of special form (pairs of special bytes, zero and 0xFF runs) and key pairs from many seeds: valid signatures accepted, each part damaged alone refused",
    [](int t) { keys_setup(1); return 512ull + 512 + (t ? 2048 : 256); },
    [](uint64_t i) { Bytes msg = content(0, 1 + i % 64, "ppk"); env::reset(fmt("ppk%lu", (unsigned long)i)); Key k; if (i >= 1024) k = keypair_seed(oa((uint32_t)(((i - 1024) & 255) | ((i - 1024) >> 8) * 5 << 8), 160)); else { k = key(0); Bytes sp = i < 512 ? special((uint32_t)i, 64) : runs((uint32_t)(i - 512), 64, "spk"); std::copy(sp.begin(), sp.end(), k.pk.begin() + 1344); std::copy(sp.begin(), sp.end(), k.sk.begin() + 3936 + 64); }
        SignRes s = im::sign(COMPACT, msg, k.sk); if (s.rc) mc::fail("sign failed"); check_accept(COMPACT, s.sm, msg, k.pk, "base"); damage(COMPACT, s.sm, msg, k.pk, i, 2, fmt("key row %lu", (unsigned long)i).c_str()); mc::trace(); },
    [](uint64_t i) { return fmt("public key row %lu, each part damaged", (unsigned long)i); }});
// ---------------------------------------------------------------- C03
static std::vector<Bytes> base_sm[2]; static Bytes base_msg[2][3]; static const int TL[3] = {64, 1, 32};
static uint64_t tam_setup(int mode) { keys_setup(1); if (base_sm[mode].empty()) for (int q = 0; q < 3; q++) { base_msg[mode][q] = content(0, TL[q], "T"); env::reset("tam"); SignRes s = im::sign(mode, base_msg[mode][q], key(0).sk); if (s.rc) mc::fail("sign failed"); check_accept(mode, s.sm, base_msg[mode][q], key(0).pk, "base"); base_sm[mode].push_back(s.sm); } return 0; }
static void tamper_sm(int mode, int q, size_t pos, uint8_t v, int which) { Bytes sm = xorb(base_sm[mode][q], pos, v); check_reject(mode, sm, base_msg[mode][q], key(0).pk, fmt("%s signature of %d bytes with byte %zu changed by 0x%02x", mname(mode), TL[q], pos, v).c_str(), which); }
static mc::Reg t1({"h_tamper_compact", "compact mode: every bit of every byte of a signed 64-byte message; every byte (2 bits) of signed 1- and 32-byte messages",
    [](int) { tam_setup(COMPACT); return 2590ull + 2527 + 2558; },
    [](uint64_t i) { if (i < 2590) { for (int b = 0; b < 8; b++) tamper_sm(COMPACT, 0, i, 1 << b, b == (int)(i % 8) || i < 2 ? 3 : 1); } else { int q = i < 2590 + 2527 ? 1 : 2; size_t p = i - (q == 1 ? 2590 : 5117); tamper_sm(COMPACT, q, p, 1, 1); tamper_sm(COMPACT, q, p, 0x80, 2); } mc::trace(); },
    [](uint64_t i) { return fmt("compact tamper position index %lu", (unsigned long)i); }});
static mc::Reg t2({"h_tamper_pk", "every bit of every public-key byte in compact mode; in full mode every byte of the key (every bit of its Ed25519 and SPHINCS+ parts)",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 1408ull * 2; },
    [](uint64_t i) { int mode = i / 1408; size_t p = i % 1408; bool allbits = mode == COMPACT || p < 32 || p >= 1344; for (int b = 0; b < 8; b++) { if (!allbits && b != (int)(p % 8)) continue; check_reject(mode, base_sm[mode][0], base_msg[mode][0], xorb(key(0).pk, p, 1 << b), fmt("%s: public key byte %zu bit %d changed", mname(mode), p, b).c_str(), b & 1 ? 1 : 2); } mc::trace(); },
    [](uint64_t i) { return fmt("%s mode, public key byte %lu", mname(i / 1408), (unsigned long)(i % 1408)); }});
static mc::Reg t3({"h_tamper_full", "full mode: every bit of header, Ed25519 part, message; every byte of the Dilithium part; 3 bytes (quick) or all bits (thorough) of each 32-byte node of the SPHINCS+ part",
    [](int t) { tam_setup(FULL); return 130ull + 2420 + (t ? 49856 : 1558 * 3); },
    [](uint64_t i) { size_t p; if (i < 130 + 2420) p = i; else if (mc::tier) p = i; else { size_t k = i - 2550; p = 2550 + k / 3 * 32 + (size_t[]){0, 15, 31}[k % 3]; }
        if (i < 130) for (int b = 0; b < 8; b++) tamper_sm(FULL, 0, p, 1 << b, b == (int)(i % 8) || i < 2 ? 3 : 1); else if (i < 2550) { tamper_sm(FULL, 0, p, 1 << (p % 8), 1); } else if (mc::tier) for (int b = 0; b < 8; b++) tamper_sm(FULL, 0, p, 1 << b, 1); else tamper_sm(FULL, 0, p, 1 << (p * 5 % 8), p % 32 == 31 ? 2 : 1); mc::trace(); },
    [](uint64_t i) { return fmt("full tamper index %lu", (unsigned long)i); }});
static mc::Reg t4({"h_tamper_msg", "message handed to verify: every bit, every pair of bytes changed by the same or opposite amount, every other length (prefixes, extensions), both modes",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 64ull * 2 + 130 + 64; },
    [](uint64_t i) { const Bytes &pk = key(0).pk;
        if (i < 128) { int mode = i / 64; size_t p = i % 64; const Bytes &m = base_msg[mode][0]; for (int b = 0; b < 8; b++) check_reject(mode, base_sm[mode][0], xorb(m, p, 1 << b), pk, fmt("%s verify given a message with byte %zu bit %d changed", mname(mode), p, b).c_str(), 2); mc::trace(); return; }
        i -= 128;
        if (i < 130) { int mode = i / 65; size_t n = i % 65; for (int q = 0; q < 3; q++) { Bytes m = base_msg[mode][q]; if (n == m.size() || !n) continue; Bytes m2 = m; m2.resize(n, 0); check_reject(mode, base_sm[mode][q], m2, pk, fmt("%s verify given %zu of %zu message bytes", mname(mode), n, m.size()).c_str(), 2); if (n > m.size()) { for (size_t j = m.size(); j < n; j++) m2[j] = m[j % m.size()]; check_reject(mode, base_sm[mode][q], m2, pk, "verify given a repeated message", 2); } } mc::trace(); return; }
        size_t p = i - 130; const Bytes &m = base_msg[COMPACT][0]; for (size_t q = p + 1; q < 64; q++) { Bytes a = m; a[p] ^= 0x21; a[q] ^= 0x21; check_reject(COMPACT, base_sm[COMPACT][0], a, pk, "verify given a message with two bytes changed alike", 2); a = m; a[p]++; a[q]--; check_reject(COMPACT, base_sm[COMPACT][0], a, pk, "verify given a message with two bytes changed oppositely", 2); a = m; std::swap(a[p], a[q]); if (a != m) { check_reject(COMPACT, base_sm[COMPACT][0], a, pk, "verify given a message with bytes swapped", 2); check_reject(FULL, base_sm[FULL][0], a, pk, "verify given a message with bytes swapped", 2); } } mc::trace(); },
    [](uint64_t i) { return fmt("verify message alteration index %lu", (unsigned long)i); }});
static mc::Reg t4b({"h_tamper_len", "every message length 1..64, both modes: verify given a message with each byte changed (two ways), with each other length (full mode: 5 lengths) and with its ends swapped; signed message with each message, nonce and header byte changed, and with Ed25519 signature bytes and Ed25519 and SPHINCS+ public key bytes changed (all in compact mode), given to open and verify",
    [](int) { keys_setup(1); return 128ull; },
    [](uint64_t i) { int mode = i % 2; size_t n = 1 + i / 2; const Key &k = key(0); Bytes msg = content(0, n, "tl"); env::reset("tl"); SignRes s = im::sign(mode, msg, k.sk); if (s.rc) mc::fail("sign failed"); check_accept(mode, s.sm, msg, k.pk, "base"); size_t mo = mode == COMPACT ? 2526 : 66;
        for (size_t p = 0; p < n; p++) { for (int v : {1 << p % 8, 1 << (p + 3) % 8 | 0x80}) check_reject(mode, s.sm, xorb(msg, p, v), k.pk, fmt("%s verify given a %zu-byte message with byte %zu changed", mname(mode), n, p).c_str(), 2); check_reject(mode, xorb(s.sm, mo + p, 1 << (p + n) % 8), p & 1 ? xorb(msg, p, 1 << (p + n) % 8) : msg, k.pk, fmt("%zu-byte message, byte %zu changed in the signed message", n, p).c_str(), 3); }
        for (size_t l = 1; l <= 64; l++) { if (l == n || (mode == FULL && l != 1 && l != n - 1 && l != n + 1 && l != 32 && l != 64)) continue; Bytes m = msg; m.resize(l, msg[0]); check_reject(mode, s.sm, m, k.pk, fmt("%s verify given %zu bytes for a %zu-byte message", mname(mode), l, n).c_str(), 2); }
        if (msg[0] != msg[n - 1]) { Bytes m = msg; std::swap(m[0], m[n - 1]); check_reject(mode, s.sm, m, k.pk, "verify given a message with its ends swapped", 2); }
        if (mode == COMPACT) for (size_t p = 0; p < 40; p++) check_reject(mode, xorb(s.sm, 2486 + p, 1 << (p + n) % 8), msg, k.pk, fmt("%zu-byte message, nonce byte %zu changed", n, p).c_str(), 3);
        for (size_t p = 0; p < 96; p++) { if (mode == FULL && p % 4 != n % 4) continue; check_reject(mode, s.sm, msg, xorb(k.pk, p < 32 ? p : 1312 + p, 1 << (p + n) % 8), fmt("%zu-byte message, public key byte %zu changed", n, p < 32 ? p : 1312 + p).c_str(), 1 + (p + n / 4) % 2); }
        for (size_t p = 0; p < 64; p++) { if (mode == FULL && p % 8 != n % 8) continue; check_reject(mode, xorb(s.sm, 2 + p, 1 << (p + n) % 8), msg, k.pk, fmt("%zu-byte message, Ed25519 byte %zu changed", n, p).c_str(), 1 + (p + n / 8) % 2); }
        for (int p = 0; p < 2; p++) for (int b = 0; b < 8; b++) check_reject(mode, xorb(s.sm, p, 1 << b), msg, k.pk, fmt("%zu-byte message, header byte %d bit %d changed", n, p, b).c_str(), 3);
        mc::trace(); },
    [](uint64_t i) { return fmt("%s mode, %lu-byte message, every message byte altered", mname(i % 2), (unsigned long)(1 + i / 2)); }});
static std::vector<std::pair<std::string, std::pair<int, Bytes>>> enc;
static void enc_add(const std::string &n, int mode, const Bytes &b) { enc.push_back({n, {mode, b}}); }
static uint64_t enc_setup(int t) { // second encodings / almost valid signatures
    tam_setup(COMPACT); tam_setup(FULL); enc.clear(); const RefKey &k = rkey(0);
    for (int mode = 0; mode < 2; mode++) for (int q = 0; q < (mode ? 1 : 3); q++) {
        const Bytes &sm = base_sm[mode][q]; size_t n = TL[q], dOff = mode == COMPACT ? 66 : 66 + n; Bytes e = sub(sm, 2, 64), d = sub(sm, dOff, 2420), msg = base_msg[mode][q], h = mode == COMPACT ? k.cdigest(sub(sm, 2486, 40), msg) : msg;
        auto put = [&](const Bytes &part, size_t off) { Bytes s = sm; std::copy(part.begin(), part.end(), s.begin() + off); return s; };
        for (int j = 1; j <= 15; j++) { Bytes s2; if (ed_shiftS(e, j, s2)) enc_add(fmt("Ed25519 scalar + %d*L", j), mode, put(s2, 2)); }
        for (int b = 0; b < 256; b++) { if (q && b % 8) continue; enc_add(fmt("Ed25519 commitment bit %d off in an otherwise valid signature", b), mode, put(ed_wrongR(h, k.ed_sk, b), 2)); }
        if (!q) for (size_t j = 0; j < nfolds(32); j += mode ? 37 : 1) enc_add(fmt("Ed25519 commitment alteration %zu in an otherwise valid signature", j), mode, put(ed_wrongR(h, k.ed_sk, [=](Bytes b) { return fold(b, j); }), 2));
        if (!q) for (size_t j = 0; j < 496; j += mode || !t ? 31 : 1) { Bytes s; if (DilMut::make(k.ds, h, 0, 0, 0, s, [=](Bytes b) { return fold(b, j); })) enc_add(fmt("Dilithium challenge alteration %zu in an otherwise valid signature", j), mode, put(s, dOff)); }
        auto hv = dil_hint_variants(d); for (size_t j = 0; j < hv.size(); j++) { if (q && j % 5) continue; enc_add(fmt("Dilithium hint encoding variant %zu", j), mode, put(hv[j], dOff)); }
        for (int b = 0; b < 256; b++) { if ((q || mode) && b % 16) continue; Bytes s; if (DilMut::make(k.ds, h, 0, b, 0, s)) enc_add(fmt("Dilithium challenge bit %d off in an otherwise valid signature", b), mode, put(s, dOff)); }
        for (int c = 0; c < 1024; c += (q || mode) ? 341 : t ? 1 : 15) for (int sd = 1; sd <= 2; sd++) { Bytes s; if (DilMut::make(k.ds, h, sd, c, ref::dil::G1 - ref::dil::BETA - 3, s)) enc_add(fmt("Dilithium response coefficient %d out of range in an otherwise valid signature", c), mode, put(s, dOff)); }
    }
    return enc.size();
}
static mc::Reg t5({"h_encodings", "second encodings and almost-valid parts: scalar + kL (k=1..15), each commitment bit, commitments and challenges with two bytes swapped or changed alike, hint reorderings/duplicates/padding/counters, each challenge bit, out-of-range response coefficients; both modes",
    enc_setup, [](uint64_t i) { auto &c = enc[i]; int q = c.second.second.size() == base_sm[c.second.first][0].size() ? 0 : c.second.second.size() == base_sm[c.second.first][1].size() ? 1 : 2; check_reject(c.second.first, c.second.second, base_msg[c.second.first][q], key(0).pk, c.first.c_str(), 3); mc::trace(); },
    [](uint64_t i) { return fmt("%s: %s", mname(enc[i].second.first), enc[i].first.c_str()); }});
static mc::Reg t6({"h_wrongroot", "full mode: signature consistent in every respect except that the SPHINCS+ root in the public key differs in one bit, or in two bytes swapped or changed alike",
    [](int t) { keys_setup(1); return t ? 256ull + 496 : 32ull + 16; },
    [](uint64_t i) { uint64_t nb = mc::tier ? 256 : 32; int bit = mc::tier ? i : i * 8 + i % 8; size_t j = mc::tier ? i - nb : (i - nb) * 31 + 7; const RefKey &k = rkey(0); Bytes msg = content(0, 20, "wr"), pm, s; sph_wrong_root(k.sph_sk, msg, Bytes(32, (uint8_t)i), bit, pm, s, i < nb ? Alter() : [=](Bytes b) { return fold(b, j); }); Bytes pk = cat({sub(k.k.pk, 0, 1344), pm}); check_reject(FULL, asm_full(msg, ref::ed::sign(msg, k.ed_sk), k.dsign(msg), s), msg, pk, fmt("SPHINCS+ root bit %d off", bit).c_str(), 3); mc::trace(); },
    [](uint64_t i) { return fmt("root bit variant %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C04
static mc::Reg m1({"h_header", "every mode id 0..255 x every length byte 0..255 on signatures of 3 lengths, both modes, both open and verify (all must fail unless unchanged)",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 256ull * 2 * 3; },
    [](uint64_t i) { mc::Idx x(i); int id = x.take(256), mode = x.take(2), q = x.take(3); Bytes sm = base_sm[mode][q]; int oid = sm[0], ol = sm[1]; sm[0] = id; for (int l = 0; l < 256; l++) { if (id == oid && l == ol) continue; sm[1] = l; check_reject(mode, sm, base_msg[mode][q], key(0).pk, fmt("%s with id %d and length byte %d", mname(mode), id, l).c_str(), l % 8 == 0 || l < 66 ? 3 : 1); } mc::trace(); },
    [](uint64_t i) { mc::Idx x(i); int id = x.take(256), mode = x.take(2), q = x.take(3); return fmt("%s signature of %d bytes, id byte %d, all length bytes", mname(mode), TL[q], id); }});
static mc::Reg m2({"h_smlen", "every signed length 0..maximum+512 (buffers cut or extended to exactly that size) with original and matching length byte, both modes",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 3200ull + 53000; },
    [](uint64_t i) { int mode = i < 3200 ? COMPACT : FULL; size_t n = mode == COMPACT ? i : i - 3200; for (int q = 0; q < 3; q++) { Bytes sm = base_sm[mode][q]; if (sm.size() == n) continue; if (q && mode == FULL && n < 52000 && n % 16) continue; Bytes o = sm; sm.resize(n, 0x11); check_reject(mode, sm, base_msg[mode][q], key(0).pk, fmt("%s length %zu instead of %zu", mname(mode), n, o.size()).c_str(), n > 2 ? 3 : 3); long want = (long)n - (long)smlen_of(mode, 0); if (n > 1 && want >= 0 && want < 256) { sm[1] = (uint8_t)want; Bytes m2 = base_msg[mode][q]; m2.resize(want ? want : 1, 0x11); check_reject(mode, sm, m2, key(0).pk, fmt("%s resized to %zu with length byte %ld", mname(mode), n, want).c_str(), 3); } } mc::trace(); },
    [](uint64_t i) { return fmt("signed length %lu", (unsigned long)(i < 3200 ? i : i - 3200)); }});
// Genuinely signed messages whose length is outside the domain: only the length rules can reject them.
static std::vector<int> outlens(int mode, int t) { std::vector<int> v{0}; for (int n = 65; n <= 320; n++) if (mode == COMPACT || t || n == 65 || n == 128 || n == 255 || n == 256 || n == 257 || n == 320) v.push_back(n); return v; }
static mc::Reg m2b({"h_outlen", "messages of 0 and 65..320 bytes signed correctly (by the model) with their true length modulo 256 in the length byte and the matching signed length: open and verify must refuse them, both modes (full mode quick: 7 lengths)",
    [](int t) { keys_setup(1); return (uint64_t)(outlens(COMPACT, t).size() + outlens(FULL, t).size()); },
    [](uint64_t i) { auto c = outlens(COMPACT, mc::tier), f = outlens(FULL, mc::tier); int mode = i < c.size() ? COMPACT : FULL, n = mode == COMPACT ? c[i] : f[i - c.size()]; const RefKey &k = rkey(0); Bytes msg = content(0, n, "outlen"), r = mc::prf("outlen", 40), sm = mode == COMPACT ? ref_compact(k, msg, r) : ref_full(k, msg, sub(r, 0, 32));
        for (size_t cut : {(size_t)0, (size_t)(n > 255 ? 256 : 0)}) { if (n > 255 && cut) { if (mode == FULL) continue; sm.resize(sm.size() - cut); } mc::GBuf s(sm), p(k.k.pk), m(320), mm(msg.empty() ? Bytes(1) : msg); LenBox L; s.readonly(); p.readonly(); mm.readonly(); mc::transition(2);
            int rc = c_open(mode, m.p, L.ptr(), s.p, sm.size(), p.p); if (rc == 0) mc::fail("%s open accepted a message of %d bytes", mname(mode), n); if (!m.all(0xA5) || L.get() != LENMAGIC) mc::fail("%s open of a message of %d bytes failed but wrote outputs", mname(mode), n);
            for (unsigned long long l : {(unsigned long long)n, (unsigned long long)(n & 255), 1ull, 64ull}) { mc::GBuf q(l > mm.n ? Bytes(l) : mm.bytes()); if (c_verify(mode, q.p, l, s.p, sm.size(), p.p) == 0) mc::fail("%s verify accepted a message of %d bytes (as length %llu)", mname(mode), n, l); }
            mc::state(mc::mix(n, mode * 2 + (cut != 0))); if (n <= 255) break; }
        mc::outcome("refused"); mc::trace(); },
    [](uint64_t i) { auto c = outlens(COMPACT, mc::tier), f = outlens(FULL, mc::tier); return i < c.size() ? fmt("compact, message of %d bytes", c[i]) : fmt("full, message of %d bytes", f[i - c.size()]); }});
static std::vector<unsigned long long> wraps(unsigned long long v) { std::vector<unsigned long long> r; for (int k : {7, 8, 15, 16, 17, 24, 30, 31, 32, 33, 40, 48, 56, 62, 63}) { r.push_back(v + (1ull << k)); r.push_back((1ull << k) - v); r.push_back(v | 1ull << k); } for (unsigned long long x : {~0ull, ~0ull - v, 0ull - v, ~0ull - 1, 1ull << 63, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull + v}) r.push_back(x); return r; }
static mc::Reg m3({"h_wrap", "integer-wrap boundaries of every length argument (signed length, message length) of every entry point, with genuine buffers of the true size",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 2ull * 3; },
    [](uint64_t i) { int mode = i % 2, q = i / 2; const Bytes &sm = base_sm[mode][q], &msg = base_msg[mode][q]; const Bytes &pk = key(0).pk, &sk = key(0).sk;
        for (auto v : wraps(sm.size())) { if (v == sm.size()) continue; mc::GBuf s(sm), k(pk), m(64), mm(msg); LenBox L; s.readonly(); k.readonly(); mm.readonly(); mc::transition(2);
            if (c_open(mode, m.p, L.ptr(), s.p, v, k.p) == 0) mc::fail("%s open accepted signed length %llu for a %zu-byte signature", mname(mode), v, sm.size()); if (!m.all(0xA5) || L.get() != LENMAGIC) mc::fail("%s open with signed length %llu failed but wrote outputs", mname(mode), v);
            if (c_verify(mode, mm.p, msg.size(), s.p, v, k.p) == 0) mc::fail("%s verify accepted signed length %llu", mname(mode), v); mc::state(mc::mix(v, mode)); }
        for (auto v : wraps(msg.size())) { if (v >= 1 && v <= 64) continue; mc::GBuf s(sm), k(pk), mm(msg), out(sm.size()), sk_(sk); LenBox L; s.readonly(); k.readonly(); mm.readonly(); sk_.readonly(); mc::transition(2); env::reset("w");
            if (c_verify(mode, mm.p, v, s.p, sm.size(), k.p) == 0) mc::fail("%s verify accepted message length %llu", mname(mode), v);
            if (c_sign(mode, out.p, L.ptr(), mm.p, v, sk_.p) == 0) mc::fail("%s sign accepted message length %llu", mname(mode), v); if (!out.all(0xA5) || L.get() != LENMAGIC) mc::fail("%s sign with message length %llu failed but wrote outputs", mname(mode), v); mc::state(mc::mix(v, mode + 7)); }
        for (unsigned v = 0; v < 1100; v++) { if (v >= 1 && v <= 64) continue; mc::GBuf mm(Bytes(v, 7)), out(v + 53000), sk_(sk), s(sm), k(pk); LenBox L; mc::transition(2); env::reset("w"); if (c_sign(mode, out.p, L.ptr(), mm.p, v, sk_.p) == 0) mc::fail("%s sign accepted a %u-byte message", mname(mode), v); if (!out.all(0xA5) || L.get() != LENMAGIC) mc::fail("%s sign of %u bytes failed but wrote outputs", mname(mode), v); if (c_verify(mode, mm.p, v, s.p, sm.size(), k.p) == 0) mc::fail("%s verify accepted a %u-byte message", mname(mode), v); }
        mc::trace(); },
    [](uint64_t i) { return fmt("%s, base length %d: wrap boundaries", mname(i % 2), TL[i / 2]); }});
static mc::Reg m4({"h_null", "every subset of pointer arguments missing, every hybrid entry point",
    [](int) { tam_setup(COMPACT); tam_setup(FULL); return 256ull; },
    [](uint64_t i) { int fn = i / 32, sub_ = i % 32; mc::GBuf pk(key(0).pk), sk(key(0).sk), seed(mc::prf("s", 160)), out(53000), out2(4096); LenBox L; env::reset("null"); int rc = 1; bool any = true; Bytes pkB = pk.bytes(), skB = sk.bytes(); mc::GBuf opk(1408), osk(4064);
        auto P = [&](int b, uint8_t *p) -> uint8_t * { return sub_ >> b & 1 ? nullptr : p; }; int np = 0; bool lastok = true;
        mc::GBuf m(base_msg[0][0]), smc(base_sm[0][0]), smf(base_sm[1][0]);
        switch (fn) {
        case 0: np = 3; if (sub_ >> np || !sub_) return; rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(P(0, opk.p), P(1, osk.p), P(2, seed.p)); break;
        case 1: np = 2; if (sub_ >> np || !sub_) return; rc = crypto_sign_dilithium_ed25519_sphincs_keypair(P(0, opk.p), P(1, osk.p)); break;
        case 2: case 3: np = 4; if (sub_ >> np || !sub_) return; rc = c_sign(fn - 2, P(0, out.p), (unsigned long long *)P(1, L.g.p), P(2, m.p), 64, P(3, sk.p)); break;
        case 4: case 5: np = 4; if (sub_ >> np || !sub_) return; { auto &s = fn == 4 ? smc : smf; rc = c_open(fn - 4, P(0, out.p), (unsigned long long *)P(1, L.g.p), P(2, s.p), s.n, P(3, pk.p)); } break;
        case 6: np = 3; if (sub_ >> np >> 1 || !(sub_ & 7)) return; { int mode = sub_ >> 3 & 1; auto &s = mode ? smf : smc; rc = c_verify(mode, P(0, m.p), 64, P(1, s.p), s.n, P(2, pk.p)); } break;
        case 7: if (sub_ >> 4 || !(sub_ & 7)) return; if (sub_ & 8) { if (!(sub_ & 3) || sub_ & 4) return; rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(P(0, seed.p), P(1, out.p)); } else { Bytes dsig = rkey(0).dsign(base_msg[0][0]); mc::GBuf d(dsig), dpk(sub(key(0).pk, 32, 1312)); rc = crypto_verify_dilithium(P(0, m.p), 64, P(1, d.p), d.n, P(2, dpk.p)); } break;
        }
        mc::transition(); if (rc == 0) mc::fail("entry point %d returned success with a missing pointer (mask 0x%x)", fn, sub_);
        if (!out.all(0xA5) || L.get() != LENMAGIC || !opk.all(0xA5) || !osk.all(0xA5)) mc::fail("entry point %d with a missing pointer (mask 0x%x) failed but wrote an output", fn, sub_);
        mc::state(mc::mix(i, rc)); mc::trace(); (void)any; (void)lastok; },
    [](uint64_t i) { static const char *n[] = {"keypair_seed", "keypair", "compact sign", "full sign", "compact open", "full open", "verify", "seed expander / verify_dilithium"}; return fmt("%s with pointer mask 0x%lx NULL", n[i / 32], (unsigned long)(i % 32)); }});
static mc::Reg m5({"h_verify_dil", "stand-alone Dilithium verification: every message length 0..300, every signature length 0..5200 and wrap boundaries, tampered message/signature/key bytes",
    [](int) { keys_setup(1); return 301ull + 5200 + 1 + 1312 + 2420; },
    [](uint64_t i) { const RefKey &k = rkey(0); Bytes dpk = sub(k.k.pk, 32, 1312); static Bytes s64, m64; if (s64.empty()) { m64 = content(0, 64, "vd"); s64 = k.dsign(m64); }
        auto call = [&](const Bytes &m, unsigned long long ml, const Bytes &s, unsigned long long sl, const Bytes &pk) { mc::GBuf a(m), b(s), c(pk); a.readonly(); b.readonly(); c.readonly(); Call cc; int rc = crypto_verify_dilithium(a.p, ml, b.p, sl, c.p); cc.done("crypto_verify_dilithium"); mc::state(mc::mix(mc::hash(s), mc::mix(ml, mc::mix(sl, rc)))); return rc; };
        if (i < 301) { Bytes m = content(0, i, "vdl"); Bytes s = k.dsign(m); int rc = call(m, i, s, s.size(), dpk); if ((rc == 0) != (i >= 1 && i <= 64)) mc::fail("crypto_verify_dilithium of a valid signature of a %lu-byte message returned %d", (unsigned long)i, rc); if (i >= 2 && i <= 64) { if (!call(sub(m, 0, i - 1), i - 1, s, s.size(), dpk)) mc::fail("accepted a truncated message"); m.push_back(0); if (i < 64 && !call(m, i + 1, s, s.size(), dpk)) mc::fail("accepted an extended message"); m.pop_back(); for (size_t p = 0; p < i; p++) if (!call(xorb(m, p, 1 << (p % 8)), i, s, s.size(), dpk)) mc::fail("accepted a message with byte %zu changed", p); } }
        else if (i < 301 + 5200) { size_t n = i - 301; if (n == 2420) return; Bytes s = s64; s.resize(n, 0); if (!call(m64, 64, s, n, dpk)) mc::fail("accepted a signature of %zu bytes", n); }
        else if (i == 301 + 5200) { for (auto v : wraps(2420)) if (v != 2420 && !call(m64, 64, s64, v, dpk)) mc::fail("accepted signature length %llu", v); for (auto v : wraps(64)) if ((v < 1 || v > 64) && !call(m64, v, s64, 2420, dpk)) mc::fail("accepted message length %llu", v); }
        else if (i < 301 + 5200 + 1 + 1312) { size_t p = i - 5502; if (!call(m64, 64, s64, 2420, xorb(dpk, p, 1 << (p % 8)))) mc::fail("accepted with public key byte %zu changed", p); }
        else { size_t p = i - 5502 - 1312; for (int b = 0; b < 8; b++) if (!call(m64, 64, xorb(s64, p, 1 << b), 2420, dpk)) mc::fail("accepted with signature byte %zu bit %d changed", p, b); }
        mc::trace(); },
    [](uint64_t i) { return fmt("crypto_verify_dilithium case %lu", (unsigned long)i); }});
// ---------------------------------------------------------------- C08 / C09
static void check_keys(const Bytes &seed, bool full_ref) { Key k = keypair_seed(seed); Key w = ref_keypair(seed); (void)full_ref; auto diff = [&](const Bytes &a, const Bytes &b, const char *n) { if (a != b) { size_t i = 0; while (a[i] == b[i]) i++; mc::fail("%s differs from the specification at byte %zu for seed %s", n, i, hex(seed, 160).c_str()); } }; diff(k.pk, w.pk, "public key"); diff(k.sk, w.sk, "secret key"); mc::trace(); }
static mc::Reg k0({"h_keygen_special", "seeded key generation: every pair of seed positions takes every pair of 16 special values; every leading/trailing run and every aligned window of zero or 0xFF bytes, against the specification",
    [](int) { if (wk.empty()) wk = windows(160, 4, "s"); return 512ull + 1280 + wk.size(); },
    [](uint64_t i) { check_keys(i < 512 ? special(i, 160) : i < 1792 ? runs(i - 512, 160, "s") : wk[i - 1792], true); },
    [](uint64_t i) { return fmt("special seed %lu", (unsigned long)i); }});
static mc::Reg k1({"h_keygen", "seeded key generation: covering array over the 160 seed bytes (every position, every value) plus every single-bit change of a base seed, against the specification",
    [](int t) { return t ? 4096ull + 1280 : 512ull + 1280; },
    [](uint64_t i) { uint64_t n = mc::tier ? 4096 : 512; if (i < n) { check_keys(oa((uint32_t)((i & 255) | (i >> 8) * 3 << 8), 160, i >> 8), true); return; }
        i -= n; static Bytes base; static Key bk; if (base.empty()) { base = mc::prf("bseed", 160); bk = keypair_seed(base); } Bytes s = flip(base, i); Key k = keypair_seed(s); size_t byte = i / 8; int seg = byte < 32 ? 0 : byte < 64 ? 1 : 2; Bytes p[3], q[3]; size_t po[4] = {0, 32, 1344, 1408}, so[4] = {0, 64, 3936, 4064};
        for (int j = 0; j < 3; j++) { bool ps = sub(k.pk, po[j], po[j + 1] - po[j]) == sub(bk.pk, po[j], po[j + 1] - po[j]), ss = sub(k.sk, so[j], so[j + 1] - so[j]) == sub(bk.sk, so[j], so[j + 1] - so[j]); if (j == seg) { if (ss) mc::fail("seed byte %zu does not influence the secret key", byte); bool onlysk = seg == 2 && byte >= 96 && byte < 128; if (ps != onlysk) mc::fail("seed byte %zu: unexpected influence on the public key part", byte); } else if (!ps || !ss) mc::fail("seed byte %zu influences the keys of another component", byte); }
        if (i % 8 == 0) check_keys(s, true); mc::trace(); },
    [](uint64_t i) { return fmt("seed case %lu", (unsigned long)i); }});
static mc::Reg k2({"h_keygen_random", "unseeded key generation equals seeded generation on the 160 bytes the OS delivered, for several delivery chunkings; secret key embeds the public keys",
    [](int) { return 12ull; },
    [](uint64_t i) { env::reset(fmt("kg%lu", (unsigned long)i / 3)); size_t chunks[3] = {0, 1, 33}; env::rng.max_chunk = chunks[i % 3]; env::rng.eintr_mask = i * 5; mc::GBuf pk(1408), sk(4064); Call c; int rc = crypto_sign_dilithium_ed25519_sphincs_keypair(pk.p, sk.p); c.done("keypair"); pk.check("pk"); sk.check("sk"); if (rc) mc::fail("key generation failed with %d though the OS delivered all bytes", rc); Key w = ref_keypair(env::expect(env::rng.tape, 0, 160)); if (w.pk != pk.bytes() || w.sk != sk.bytes()) mc::fail("generated keys are not those of the 160 OS bytes"); Bytes s = sk.bytes(), p = pk.bytes(); if (sub(s, 32, 32) != sub(p, 0, 32) || sub(s, 64 + 2560, 1312) != sub(p, 32, 1312) || sub(s, 4000, 64) != sub(p, 1344, 64)) mc::fail("secret key does not embed the public keys"); mc::state(mc::hash(p)); mc::trace(); },
    [](uint64_t i) { return fmt("keypair() tape %lu chunking %lu", (unsigned long)i / 3, (unsigned long)i % 3); }});
static Bytes expander_model(const Bytes &seed, bool masked) { Bytes t = sub(seed, 0, 64); if (masked) for (int i = 1; i < 64; i += 2) t[i] = 0; t.push_back(2); Bytes x = ref::shake256(t, 128); return cat({sub(x, 0, 32), sub(seed, 64, 32), sub(x, 32, 96)}); }
static mc::Reg k3b({"h_expander_pairs", "seed expansion: every pair of the 96 input positions takes every pair of byte values (65536 rows; every three positions, 2^24 rows, in thorough), every leading/trailing run and every window of zero or 0xFF bytes, against the documented composition",
    [](int t) { return (t ? 65536ull : 256ull) + 1; },
    [](uint64_t i) { auto go = [](const Bytes &s) { static mc::GBuf in(96), out(160); memcpy(in.p, s.data(), 96); memset(out.p, 0xA5, 160); int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(in.p, out.p); mc::transition(); if (rc) mc::fail("seed expansion failed with %d", rc); Bytes o = out.bytes(); if (o != expander_model(s, false) && o != expander_model(s, true)) mc::fail("expansion of %s differs from the documented composition", hex(s, 96).c_str()); };
        if (i < (mc::tier ? 65536ull : 256ull)) for (uint32_t a = 0; a < 256; a++) go(oa3(a | (uint32_t)i << 8, 96)); else for (uint32_t r = 0; r < 768; r++) go(runs(r, 96, "h")); if (i >= (mc::tier ? 65536ull : 256ull)) for (auto &w : windows(96, 1, "h")) go(w); mc::state(i); mc::trace(); },
    [](uint64_t i) { return fmt("seed expander rows %lu", (unsigned long)i); }});
static mc::Reg k3({"h_expander", "seed expansion: each of the 96 input bytes over all 256 values around 3 base seeds, influence of every byte, against the documented composition",
    [](int) { return 96ull * 3; },
    [](uint64_t i) { size_t p = i % 96; Bytes base = i / 96 == 0 ? mc::prf("eb", 96) : i / 96 == 1 ? Bytes(96, 0) : Bytes(96, 0xFF); std::vector<Bytes> outs; bool masked = false;
        for (int v = 0; v < 256; v++) { Bytes s = base; s[p] = v; mc::GBuf in(s, v & 1), out(160, v & 1); in.readonly(); Call c; int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(in.p, out.p); c.done("seed expander"); out.check("expanded seed"); if (rc) mc::fail("seed expansion failed with %d", rc); Bytes o = out.bytes(); if (o != expander_model(s, false)) { if (o != expander_model(s, true)) mc::fail("expansion of %s differs from the documented composition", hex(s, 96).c_str()); masked = true; } outs.push_back(o); mc::state(mc::hash(o)); }
        size_t same = 0; for (int v = 1; v < 256; v++) if (outs[v] == outs[0]) same++;
        if (same) { if (masked && p < 64 && p % 2 == 1 && same == 255) mc::known("ignored-seed-byte-%02zu", p); else mc::fail("input byte %zu does not (fully) influence the expansion: %zu of 255 other values give the same output", p, same); }
        mc::trace(); },
    [](uint64_t i) { return fmt("seed expander, input byte %lu, base %lu", (unsigned long)(i % 96), (unsigned long)(i / 96)); }});
