/* H01: the length counter is right for every count of bytes already hashed.  The counter is found in the object's
 * memory by observing how it moves from block to block, and is then given an arbitrary 60-bit value. */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
#include "spec_hash.h"
static uint8_t msg[4 * BLEN + 1], snap[3][sizeof(struct NoiseHashState_s) + 1024];
static uint64_t rd(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
#define TAILS 4
static const size_t tails[TAILS] = {0, 7, BLEN - 8, BLEN + 3};
void harness(void)
{
    NoiseHashState *st = 0; size_t i, k, p, n, unit = 0, at = 0; uint64_t extra, v; uint8_t got[64], want[64];
    vf_assert(noise_hashstate_new_by_id(&st, ALG) == NOISE_ERROR_NONE, "create");
    n = st->size;
    vf_assume(n <= sizeof(snap[0]));
    for (k = 1; k <= 3; ++k) {
        noise_hashstate_reset(st);
        for (i = 0; i < k; ++i) noise_hashstate_update(st, msg, BLEN);
        noise_hashstate_update(st, msg, 1);
        memcpy(snap[k - 1], st, n);
    }
    for (p = 0; p + 8 <= n && !unit; p += 8) {
        uint64_t a = rd(snap[0] + p), b = rd(snap[1] + p), c = rd(snap[2] + p);
        if (a <= 16 * BLEN && b - a == c - b && (b - a == BLEN || b - a == 8 * BLEN)) { unit = (size_t)(b - a) / BLEN; at = p; }
    }
    if (!unit) { vf_cover("no counter found"); vf_assert(1, "skip"); vf_cover("end"); return; }
    extra = vf_u64("extra");
    vf_assume(extra < (1ULL << 60));
    for (i = 0; i < TAILS; ++i) {
        size_t t = tails[i];
        if (t) vf_bytes(msg + BLEN + 1, t, "m");
        noise_hashstate_reset(st);
        noise_hashstate_update(st, msg, BLEN + 1);
        v = rd((uint8_t *)st + at) + extra * unit;
        memcpy((uint8_t *)st + at, &v, 8);
        noise_hashstate_update(st, msg + BLEN + 1, t);
        noise_hashstate_finalize(st, got, HLEN);
        SPECEX(want, msg, BLEN + 1 + t, extra);
        vf_assert_eq(got, want, HLEN, "digest of a very long message");
    }
    noise_hashstate_free(st);
    vf_cover("end");
}
