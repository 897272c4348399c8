// Explorer core: enumerates a finite case space exhaustively over forked workers, isolates crashes and
// hangs, replays every candidate violation before it is reported, and counts what was covered.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "ref/keccak.hpp"
typedef ref::Bytes Bytes;
using ref::cat;
using ref::sub;

namespace mc {
enum Tier { QUICK = 0, THOROUGH = 1 };
struct Module {
    const char *name;
    const char *space;                                   // one line: what is enumerated
    std::function<uint64_t(int tier)> setup;             // prepares data, returns number of cases
    std::function<void(uint64_t i)> run;                 // explores case i, calls mc::fail on a violation
    std::function<std::string(uint64_t i)> describe;     // human readable form of case i
    double case_timeout = 60;
};
void add(const Module &m);
struct Reg { Reg(const Module &m) { add(m); } };
// --- to be called by modules
void transition(uint64_t n = 1);                         // one step taken by the implementation
void state(uint64_t h);                                  // a configuration reached (64-bit hash of it)
void trace();                                            // one complete history agreed with the model
void domain(uint64_t n);                                 // points of a whole-domain enumeration
void sample(const std::string &s);                       // an example case, written out
void outcome(const char *label);                         // tally of distinct observed outcomes
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void known(const char *fmt, ...);                        // a listed finding (key), reported by run.py
extern int tier;
extern uint64_t seed;
// --- helpers
uint64_t hash(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ULL);
inline uint64_t hash(const Bytes &b, uint64_t h = 0x9E3779B97F4A7C15ULL) { return hash(b.data(), b.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0xBF58476D1CE4E5B9ULL + b + 0x94D049BB133111EBULL; x ^= x >> 29; x *= 0x94D049BB133111EBULL; return x ^ x >> 32; }
Bytes prf(const std::string &label, size_t n);           // deterministic filler bytes
std::string hex(const uint8_t *p, size_t n, size_t max = 40);
inline std::string hex(const Bytes &b, size_t max = 40) { return hex(b.data(), b.size(), max); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// splits a mixed-radix case index
struct Idx { uint64_t i; explicit Idx(uint64_t v) : i(v) {} uint64_t take(uint64_t radix) { uint64_t r = i % radix; i /= radix; return r; } };

// Exact-size buffer between inaccessible pages; the side not flush with a page carries canaries.
extern int shift; // when positive, buffers start this many bytes after a page boundary
struct GBuf {
    uint8_t *p; size_t n; uint8_t *map; size_t maplen; bool left;
    explicit GBuf(size_t n, bool left = false, uint8_t fill = 0xA5);
    explicit GBuf(const Bytes &b, bool left = false);
    ~GBuf();
    GBuf(const GBuf &) = delete;
    GBuf &operator=(const GBuf &) = delete;
    void readonly(); void writable();
    void check(const char *what) const;                  // canaries intact
    Bytes bytes() const { return Bytes(p, p + n); }
    bool all(uint8_t v) const { for (size_t i = 0; i < n; i++) if (p[i] != v) return false; return true; }
};
} // namespace mc

// ---- environment model: the operating system's random source
namespace env {
struct Rng {
    std::string tape = "tape";       // names the deterministic byte stream
    Bytes prefix;                    // explicit first bytes of the stream
    uint64_t pos = 0;                // bytes delivered so far
    uint64_t calls = 0;              // requests seen (including failing ones)
    long fail_call = -1;             // request index that fails (-1: none)
    long fail_after = -1;            // fail once this many bytes were delivered (-1: none)
    int fail_errno = 5;
    bool fail_forever = true;
    size_t max_chunk = 0;            // deliver at most this many bytes per request (0: all)
    long eintr_mask = 0;             // bit k set: request k is interrupted first
    uint64_t failures = 0;           // failures delivered
    bool foreign = false;            // some other source of randomness was used
};
extern thread_local Rng rng;
void reset(const std::string &tape = "tape");
Bytes expect(const std::string &tape, uint64_t off, size_t n); // bytes the tape holds
long heap_live();                    // blocks allocated by the library and not yet freed
void heap_track(bool on);
extern bool faulty; extern long oom_at, oom_seen; extern std::vector<void *> *oom_sites; // allocation faults: allocation number oom_at of the library fails
extern void *watch; extern size_t watch_n, watch_dirty; extern bool watch_seen; // block whose content is inspected when it is freed
}
int mc_main(int argc, char **argv);
