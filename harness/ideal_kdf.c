/* Overrides: passphrase hashing as an ideal function (its own definition is H02's subject), salts chosen by the environment. */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
uint8_t vf_last_salt[16]; int vf_salts, vf_kdf_calls; size_t vf_kdf_iter;
static int reserved;
int noise_hashstate_pbkdf2(NoiseHashState *state, const uint8_t *pp, size_t pl, const uint8_t *salt, size_t sl, size_t it, uint8_t *out, size_t outlen)
{
    static uint8_t b[200]; uint64_t v; int ff = 1, i;
    vf_assert(state && pp && salt && out && outlen == 40 && pl + sl < 150, "the key derivation is called properly");
    v = it; memcpy(b, &v, 8); v = pl; memcpy(b + 8, &v, 8); if (pl) memcpy(b + 16, pp, pl); if (sl) memcpy(b + 16 + pl, salt, sl); vf_kdf_iter = it; ++vf_kdf_calls;
    vf_uf(state->hash_id == NOISE_HASH_SHA256 ? "kdf-sha256" : state->hash_id == NOISE_HASH_SHA512 ? "kdf-sha512" : state->hash_id == NOISE_HASH_BLAKE2s ? "kdf-blake2s" : "kdf-blake2b", out, 40, b, 16 + pl + sl);
    for (i = 32; i < 40; ++i) ff &= out[i] == 0xff;
    vf_assume(!(ff & reserved)); reserved |= ff;    /* the reserved nonce comes up at most once */
    return NOISE_ERROR_NONE;
}
int noise_randstate_generate_simple(uint8_t *p, size_t n)
{
    vf_assert(n == 16, "a salt of the recommended size"); vf_bytes(p, n, "salt"); memcpy(vf_last_salt, p, 16); ++vf_salts; vf_assert(vf_salts <= 3, "no endless retrying"); return NOISE_ERROR_NONE;
}
