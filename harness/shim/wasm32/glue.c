/* Sequences of calls on incremental contexts, the same source compiled natively and for wasm32. */
#ifndef __cplusplus
#include <string.h>
#include "common/fips202.h"
#include "common/shake_prng.h"
#endif
int glue_expander(const uint8_t *seed, size_t seedlen, const uint8_t *req, size_t nreq, uint8_t *out) {
    seedexpander_state s; size_t i; seedexpander_init(&s, seed, seedlen);
    for (i = 0; i < nreq; i++) { seedexpander(&s, out, req[i]); out += req[i]; }
    seedexpander_release(&s); return 0;
}
/* absorb pieces, clone before piece `at`, the clone absorbs the rest too; then both squeeze the same pieces one after the other */
#define INC(F, RATE) { F##incctx a, b; size_t i; int have = 0; F##_inc_init(&a); \
    for (i = 0; i < na; i++) { if (i == at) { F##_inc_ctx_clone(&b, &a); have = 1; } F##_inc_absorb(&a, in, ab[i]); if (have) F##_inc_absorb(&b, in, ab[i]); in += ab[i]; } \
    F##_inc_finalize(&a); if (have) F##_inc_finalize(&b); \
    for (i = 0; i < ns; i++) { F##_inc_squeeze(out, sq[i], &a); out += sq[i]; if (have) { F##_inc_squeeze(out, sq[i], &b); out += sq[i]; } } \
    F##_inc_ctx_release(&a); if (have) F##_inc_ctx_release(&b); break; }
#define DIG(F, LEN) { F##incctx a, b; size_t i; int have = 0; F##_inc_init(&a); \
    for (i = 0; i < na; i++) { if (i == at) { F##_inc_ctx_clone(&b, &a); have = 1; } F##_inc_absorb(&a, in, ab[i]); if (have) F##_inc_absorb(&b, in, ab[i]); in += ab[i]; } \
    F##_inc_finalize(out, &a); if (have) F##_inc_finalize(out + LEN, &b); break; }
#define BLK(F, RATE) { F##ctx a, b; size_t n = ab[0]; F##_absorb(&a, in, n); F##_squeezeblocks(out, 1, &a); out += RATE; F##_ctx_clone(&b, &a); F##_squeezeblocks(out, 2, &a); out += 2 * RATE; F##_squeezeblocks(out, 1, &b); F##_ctx_release(&a); F##_ctx_release(&b); break; }
int glue_inc(int alg, const uint8_t *in, const uint8_t *ab, size_t na, size_t at, const uint8_t *sq, size_t ns, uint8_t *out) {
    switch (alg) {
    case 0: INC(shake128, 168)
    case 1: INC(shake256, 136)
    case 2: DIG(sha3_256, 32)
    case 3: DIG(sha3_384, 48)
    case 4: DIG(sha3_512, 64)
    case 5: BLK(shake128, 168)
    case 6: BLK(shake256, 136)
    }
    return 0;
}
