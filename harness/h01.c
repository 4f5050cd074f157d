/* H01: hash objects equal the standard for every message byte, under several chunkings and prior uses.
 * -DALG=NOISE_HASH_xxx -DSPEC=spec_xxx -DHLEN -DBLEN, message lengths and cuts in LENS / CUTS. */
#include "vf.h"
#include <noise/protocol.h>
#include "spec_hash.h"
static uint8_t msg[600];
static void one(NoiseHashState *st, size_t n, const size_t *cuts, size_t ncuts)
{
    uint8_t want[64], got[64]; size_t i;
    SPEC(want, msg, n);
    vf_assert(noise_hashstate_hash_one(st, msg, n, got, HLEN) == NOISE_ERROR_NONE, "hash_one succeeds");
    vf_assert_eq(got, want, HLEN, "digest is the standard one");
    for (i = 0; i < ncuts; ++i) {
        size_t c = cuts[i];
        if (c > n) continue;
        memset(got, 0, sizeof(got));
        vf_assert(noise_hashstate_hash_two(st, msg, c, msg + c, n - c, got, HLEN) == NOISE_ERROR_NONE, "hash_two succeeds");
        vf_assert_eq(got, want, HLEN, "digest of two parts is the digest of the whole");
        /* dirty the object, reset, then three chunks */
        noise_hashstate_update(st, msg + 1, (c * 7 + 13) % 150);
        if (i & 1) noise_hashstate_finalize(st, got, HLEN);
        vf_assert(noise_hashstate_reset(st) == NOISE_ERROR_NONE, "reset succeeds");
        size_t a = c / 2, b = c + (n - c) / 2;
        noise_hashstate_update(st, msg, a);
        noise_hashstate_update(st, msg + a, b - a);
        noise_hashstate_update(st, msg + b, n - b);
        vf_assert(noise_hashstate_finalize(st, got, HLEN) == NOISE_ERROR_NONE, "finalize succeeds");
        vf_assert_eq(got, want, HLEN, "digest does not depend on chunking or earlier use");
    }
}
static const size_t lens[] = { LENS };
static const size_t cuts[] = { CUTS };
void harness(void)
{
    NoiseHashState *st = 0; size_t i, m = 0; uint8_t d[64];
    vf_assert(noise_hashstate_new_by_id(&st, ALG) == NOISE_ERROR_NONE, "create");
    vf_assert(noise_hashstate_get_hash_id(st) == ALG && noise_hashstate_get_hash_length(st) == HLEN && noise_hashstate_get_block_length(st) == BLEN, "identity and lengths");
    for (i = 0; i < sizeof(lens) / sizeof(lens[0]); ++i) if (lens[i] > m) m = lens[i];
    if (m < 160) m = 160;
    vf_bytes(msg, m, "m");
    for (i = 0; i < sizeof(lens) / sizeof(lens[0]); ++i) one(st, lens[i], cuts, sizeof(cuts) / sizeof(cuts[0]));
    /* argument checks */
    memset(d, 0x5a, sizeof(d));
    vf_assert(noise_hashstate_finalize(st, d, HLEN - 1) == NOISE_ERROR_INVALID_LENGTH && noise_hashstate_finalize(st, d, HLEN + 1) == NOISE_ERROR_INVALID_LENGTH, "wrong digest length refused");
    vf_assert(noise_hashstate_hash_one(st, msg, 1, d, HLEN / 2) == NOISE_ERROR_INVALID_LENGTH && noise_hashstate_hash_two(st, msg, 1, msg, 1, d, 0) == NOISE_ERROR_INVALID_LENGTH, "wrong digest length refused");
    vf_assert(noise_hashstate_hash_one(0, msg, 1, d, HLEN) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hash_one(st, 0, 1, d, HLEN) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hash_one(st, msg, 1, 0, HLEN) == NOISE_ERROR_INVALID_PARAM, "null refused");
    vf_assert(noise_hashstate_update(st, 0, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_update(0, msg, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_reset(0) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_finalize(st, 0, HLEN) == NOISE_ERROR_INVALID_PARAM, "null refused");
    for (i = 0; i < sizeof(d); ++i) if (d[i] != 0x5a) break;
    vf_assert(i == sizeof(d), "refused calls write nothing");
    vf_assert(noise_hashstate_free(st) == NOISE_ERROR_NONE, "free");
    vf_cover("end");
}
