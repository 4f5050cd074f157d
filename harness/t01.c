/* T01: secret inputs steer no branch and no address.  The rule is checked by the executor at every branch, switch, load,
 * store and length (opts ct); inputs named public* are public.  -DPART */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
static uint8_t key[64], a[400], b[400], out[400];
void noise_rand_bytes(void *p, size_t n) { vf_bytes(p, n, "random"); }
static int choose(int n) { int v = vf_u8("public choice"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
#if PART == 0
void harness(void)
{
    size_t n = (size_t)choose(70); vf_bytes(a, n, "a"); vf_bytes(b, n, "b");
    out[0] = (uint8_t)noise_is_equal(a, b, n); out[1] = (uint8_t)noise_is_zero(a, n); noise_clean(a, n);
    vf_assert(n == 0 || vf_is_const(a, n), "wiped"); vf_cover("end");
}
#elif PART == 1
static const size_t lens[] = { LENS };
void harness(void)
{
    size_t i, n; NoiseCipherState *s = 0; NoiseBuffer m; int e;
    vf_bytes(key, 32, "key"); vf_bytes(b, 20, "ad");
    for (i = 0; i < sizeof lens / sizeof lens[0]; ++i) {
        n = lens[i]; vf_bytes(a, n + 16, "plaintext");
        vf_assert(noise_cipherstate_new_by_id(&s, CIPHER) == 0 && noise_cipherstate_init_key(s, key, 32) == 0, "key");
        noise_buffer_set_inout(m, a, n, sizeof a); vf_assert(noise_cipherstate_encrypt_with_ad(s, b, i * 5 % 21, &m) == 0, "encrypt");
        vf_bytes(a, n + 16, "ciphertext"); noise_buffer_set_inout(m, a, n + 16, sizeof a); e = noise_cipherstate_decrypt_with_ad(s, b, i * 5 % 21, &m);
        vf_assert(e == 0 || e == NOISE_ERROR_MAC_FAILURE, "outcome"); vf_cover(e ? "rejected" : "accepted");
        noise_cipherstate_free(s);
    }
    vf_cover("end");
}
#elif PART == 2
static const size_t lens[] = { LENS };
void harness(void)
{
    size_t i, l; NoiseHashState *s = 0; uint8_t o[64], o2[64];
    vf_bytes(key, 64, "key"); vf_bytes(a, 300, "data"); vf_assert(noise_hashstate_new_by_id(&s, HASH) == 0, "hash"); l = noise_hashstate_get_hash_length(s);
    for (i = 0; i < sizeof lens / sizeof lens[0]; ++i) {
        noise_hashstate_reset(s); noise_hashstate_update(s, a, lens[i] / 2); noise_hashstate_update(s, a + lens[i] / 2, lens[i] - lens[i] / 2); vf_assert(noise_hashstate_finalize(s, o, l) == 0, "digest");
    }
    vf_assert(noise_hashstate_hkdf(s, key, l, a, 32, o, l, o2, l) == 0, "hkdf"); vf_assert(noise_hashstate_pbkdf2(s, key, 9, a, 16, 2, o, 40) == 0, "pbkdf2");
    noise_hashstate_free(s); vf_cover("end");
}
#elif PART == 3
/* key objects over ideal curves */
void harness(void)
{
    NoiseDHState *s = 0, *t = 0; size_t n, pl; int e;
    vf_bytes(key, 64, "key"); vf_bytes(a, 56, "peer"); vf_assert(noise_dhstate_new_by_id(&s, DH) == 0 && noise_dhstate_new_by_id(&t, DH) == 0, "objects");
    n = noise_dhstate_get_private_key_length(s); pl = noise_dhstate_get_public_key_length(s);
    switch (choose(3)) { case 0: e = noise_dhstate_generate_keypair(s); break; case 1: e = noise_dhstate_set_keypair_private(s, key, n); break; default: e = noise_dhstate_set_keypair(s, key, n, a, pl); }
    if (e == 0) {
        vf_assert(noise_dhstate_get_keypair(s, out, n, out + 100, pl) == 0 && noise_dhstate_copy(t, s) == 0, "read and copied");
        memset(b, 4, 56); if (choose(2)) memset(b, 0, 56);
        vf_assert(noise_dhstate_set_public_key(t, b, pl) == 0, "peer"); noise_dhstate_calculate(s, t, out, noise_dhstate_get_shared_key_length(s)); noise_dhstate_clear_key(s);
    }
    noise_dhstate_free(s); noise_dhstate_free(t); vf_cover("end");
}
#elif PART == 4
int curve25519_donna(uint8_t *, const uint8_t *, const uint8_t *);
void harness(void) { vf_bytes(key, 32, "scalar"); vf_bytes(a, 32, "point"); curve25519_donna(out, key, a); vf_assert(!vf_is_const(out, 32) || 1, "computed"); vf_cover("end"); }
#elif PART == 5
#include "crypto/ed25519/ed25519.h"
void harness(void) { vf_bytes(key, 32, "seed"); vf_bytes(a, 12, "message"); if (choose(2)) ed25519_publickey(key, out); else { vf_bytes(b, 32, "public key"); ed25519_sign(a, 12, key, b, out); } vf_assert(1, "computed"); vf_cover("end"); }
#elif PART == 6
#include "crypto/ghash/ghash.h"
void harness(void) { ghash_state g; vf_bytes(key, 16, "key"); vf_bytes(a, 40, "data"); ghash_reset(&g, key); ghash_update(&g, a, 3); ghash_update(&g, a, 32); ghash_pad(&g); ghash_finalize(&g, out, 16); vf_assert(1, "computed"); vf_cover("end"); }
#endif
