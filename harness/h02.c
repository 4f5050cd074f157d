/* H02: key derivation.  -DALG=NOISE_HASH_xxx */
#define SH_MAX 1200
#include "stub_hash.h"
#include "spec_kdf.h"
static uint8_t key[300], data[300], o1[80], o2[80], w1[64], w2[64], pw[300], salt[300], out[8400], want[8400];
static void hk(NoiseHashState *h, size_t kl, size_t dl, size_t l1, size_t l2)
{
    memset(o1, 0xaa, sizeof o1); memset(o2, 0xbb, sizeof o2);
    spec_hkdf(ALG, w1, w2, key, kl, data, dl);
    vf_assert(noise_hashstate_hkdf(h, key, kl, data, dl, o1, l1, o2, l2) == NOISE_ERROR_NONE, "hkdf succeeds");
    vf_assert_eq(o1, w1, l1, "first HKDF output");
    vf_assert_eq(o2, w2, l2, "second HKDF output");
    vf_assert(o1[l1] == 0xaa && o2[l2] == 0xbb, "HKDF writes only the requested bytes");
}
static void pb(NoiseHashState *h, size_t pl, size_t sl, size_t it, size_t ol)
{
    size_t i;
    memset(out, 0xcc, sizeof out);
    spec_pbkdf2(ALG, want, ol, pw, pl, salt, sl, it);
    vf_assert(noise_hashstate_pbkdf2(h, pw, pl, salt, sl, it, out, ol) == NOISE_ERROR_NONE, "pbkdf2 succeeds");
    vf_assert_eq(out, want, ol, "PBKDF2 output");
    for (i = ol; i < sizeof out; ++i) if (out[i] != 0xcc) break;
    vf_assert(i == sizeof out, "PBKDF2 writes only the requested bytes");
}
void harness(void)
{
    NoiseHashState *h = 0; size_t L, B, i; uint8_t c[80], p[300];
    vf_assert(noise_hashstate_new_by_id(&h, ALG) == NOISE_ERROR_NONE, "create");
    L = sh_hlen(ALG); B = sh_blen(ALG);
    vf_bytes(key, 300, "k"); vf_bytes(data, 300, "d"); vf_bytes(pw, 300, "p"); vf_bytes(salt, 300, "s");
    {
        size_t kls[] = {0, 1, L, B - 1, B, B + 1, 300}, dls[] = {0, 1, 32, 56, L, B, 299};
        for (i = 0; i < 7; ++i) { hk(h, kls[i], dls[i], L, L); hk(h, L, dls[i], L, 32); hk(h, kls[i], 32, 32, L); }
        hk(h, L, 0, 0, 0); hk(h, L, 5, 1, L - 1); hk(h, L, 5, L - 1, 1); hk(h, L, 7, 0, L); hk(h, L, 7, L, 0);
    }
    /* outputs over the inputs, as the symmetric state uses it */
    memcpy(c, key, L); spec_hkdf(ALG, w1, w2, key, L, data, 32);
    vf_assert(noise_hashstate_hkdf(h, c, L, data, 32, c, L, o2, 32) == NOISE_ERROR_NONE, "hkdf in place");
    vf_assert_eq(c, w1, L, "output 1 over the key"); vf_assert_eq(o2, w2, 32, "output 2 beside output 1 over the key");
    memcpy(c, key, L); memcpy(p, data, L);
    vf_assert(noise_hashstate_hkdf(h, c, L, p, 32, p, L, c, L) == NOISE_ERROR_NONE, "hkdf in place");
    vf_assert_eq(p, w1, L, "output 1 over the data"); vf_assert_eq(c, w2, L, "output 2 over the key");
    memcpy(c, key, L); spec_hkdf(ALG, w1, w2, key, L, key, 0);
    vf_assert(noise_hashstate_hkdf(h, c, L, c, 0, o1, 32, o2, 32) == NOISE_ERROR_NONE, "hkdf without material");
    vf_assert_eq(o1, w1, 32, "split output 1"); vf_assert_eq(o2, w2, 32, "split output 2");
    {
        size_t pls[] = {0, 1, 8, B - 1, B, B + 1, 300}, sls[] = {0, 1, 8, 16, L, 200, 299}, its[] = {1, 2, 3, 1, 4, 1, 2}, ols[] = {L, 1, L - 1, L + 1, 2 * L, 3 * L + 5, 32};
        for (i = 0; i < 7; ++i) pb(h, pls[i], sls[i], its[i], ols[i]);
        pb(h, 8, 8, 1, 0);
        for (i = 0; i < 7; ++i) pb(h, pls[6 - i], sls[i], 2, 40);
    }
    pb(h, 8, 8, 1, 257 * 32 + 3);    /* the block index takes two bytes */
    /* aliasing of the output with the passphrase or the salt is not documented; refusals are */
    memset(o1, 0xaa, sizeof o1); memset(o2, 0xbb, sizeof o2);
    vf_assert(noise_hashstate_hkdf(h, key, L, data, 1, o1, L + 1, o2, 1) == NOISE_ERROR_INVALID_LENGTH && noise_hashstate_hkdf(h, key, L, data, 1, o1, 1, o2, L + 1) == NOISE_ERROR_INVALID_LENGTH, "too long an output is refused");
    vf_assert(noise_hashstate_hkdf(0, key, L, data, 1, o1, 1, o2, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hkdf(h, 0, L, data, 1, o1, 1, o2, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hkdf(h, key, L, 0, 1, o1, 1, o2, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hkdf(h, key, L, data, 1, 0, 1, o2, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_hkdf(h, key, L, data, 1, o1, 1, 0, 1) == NOISE_ERROR_INVALID_PARAM, "missing arguments are refused");
    vf_assert(noise_hashstate_pbkdf2(0, pw, 1, salt, 1, 1, o1, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_pbkdf2(h, 0, 1, salt, 1, 1, o1, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_pbkdf2(h, pw, 1, 0, 1, 1, o1, 1) == NOISE_ERROR_INVALID_PARAM && noise_hashstate_pbkdf2(h, pw, 1, salt, 1, 1, 0, 1) == NOISE_ERROR_INVALID_PARAM, "missing arguments are refused");
    vf_assert(noise_hashstate_pbkdf2(h, pw, 1, salt, 1, 1, o1, (size_t)0xFFFFFFFFu * L + 1) == NOISE_ERROR_INVALID_LENGTH, "too long an output is refused");
    for (i = 0; i < 80; ++i) if (o1[i] != 0xaa || o2[i] != 0xbb) break;
    vf_assert(i == 80, "refused calls write nothing");
    vf_assert(noise_hashstate_free(h) == NOISE_ERROR_NONE, "free");
    vf_cover("end");
}
