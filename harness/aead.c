/* C03, C04, C05: the real cipher objects against the standards.
 * CIPHER 1 ChaChaPoly, 2 AESGCM over real AES and GHASH with a fixed key, 3 AESGCM over an ideal GCM (libsodium, OpenSSL)
 * PART 0 seal and open, 1 forgeries, 2 every AES key, 3 OpenSSL failures, 4 AES-256 itself, 5 one GHASH product */
#include "vf.h"
#include <noise/protocol.h>
#include "spec_aead.h"
#if PART == 4
#include "crypto/aes/rijndael-alg-fst.h"
#elif PART == 5
#include "crypto/ghash/ghash.h"
#endif
#if CIPHER == 1
#define ID NOISE_CIPHER_CHACHAPOLY
#else
#define ID NOISE_CIPHER_AESGCM
#endif
void ideal_gcm_crypt(uint8_t *out, const uint8_t *in, size_t n, const uint8_t k[32], const uint8_t iv[12]);
void ideal_gcm_tag(uint8_t tag[16], const uint8_t k[32], const uint8_t iv[12], const uint8_t *ad, size_t al, const uint8_t *ct, size_t n);
static uint8_t W[240];
static void spec_crypt(uint8_t *out, const uint8_t *in, size_t n, const uint8_t *key, uint64_t nonce)
{
    uint8_t iv[12] = {0};
#if CIPHER == 1
    sp_le64(iv + 4, nonce); sp_chacha_xor(out, in, n, key, 1, iv);
#elif CIPHER == 2
    sp_be64(iv + 4, nonce); sp_gcm_crypt(out, in, n, W, iv);
#else
    sp_be64(iv + 4, nonce); ideal_gcm_crypt(out, in, n, key, iv);
#endif
}
static void spec_tag(uint8_t *tag, const uint8_t *key, uint64_t nonce, const uint8_t *ad, size_t al, const uint8_t *ct, size_t n)
{
    uint8_t iv[12] = {0};
#if CIPHER == 1
    uint8_t kb[64], b[32 + 600]; size_t p = 32;
    sp_le64(iv + 4, nonce); sp_chacha_block(kb, key, 0, iv); memcpy(b, kb, 32);
    memcpy(b + p, ad, al); p += al; while (p % 16) b[p++] = 0;
    memcpy(b + p, ct, n); p += n; while (p % 16) b[p++] = 0;
    sp_le64(b + p, al); sp_le64(b + p + 8, n); p += 16;
    vf_uf("poly1305", tag, 16, b, p);
#elif CIPHER == 2
    sp_be64(iv + 4, nonce); sp_gcm_tag(tag, W, iv, ad, al, ct, n);
#else
    sp_be64(iv + 4, nonce); ideal_gcm_tag(tag, key, iv, ad, al, ct, n);
#endif
}
static uint8_t key[32], ad[64], pt[300], ct[320], rc[320], want[320], old[320], zeros[320];
static const size_t sizes[][2] = { SIZES };
static NoiseCipherState *mk(uint64_t n)
{
    NoiseCipherState *st = 0; uint8_t k2[32];
    vf_assert(noise_cipherstate_new_by_id(&st, ID) == NOISE_ERROR_NONE && st, "create");
    vf_assert(noise_cipherstate_get_key_length(st) == 32 && noise_cipherstate_get_mac_length(st) == 16 && noise_cipherstate_get_cipher_id(st) == ID, "identity and lengths");
    /* an earlier key leaves no trace */
    memset(k2, 7, 32); vf_assert(noise_cipherstate_init_key(st, k2, 32) == NOISE_ERROR_NONE, "earlier key");
    vf_assert(noise_cipherstate_init_key(st, key, 32) == NOISE_ERROR_NONE, "key");
    vf_assert(noise_cipherstate_set_nonce(st, n) == NOISE_ERROR_NONE, "nonce");
    return st;
}
static void one(size_t al, size_t n, uint64_t nonce)
{
    NoiseBuffer b; NoiseCipherState *st = mk(nonce); uint8_t *buf = malloc(n + 16), *a = malloc(al ? al : 1); int e;
    memcpy(a, ad, al); memcpy(buf, pt, n); memset(buf + n, 0xcc, 16);
    spec_crypt(want, pt, n, key, nonce); spec_tag(want + n, key, nonce, ad, al, want, n);
    noise_buffer_set_inout(b, buf, n, n + 16);
    vf_assert(noise_cipherstate_encrypt_with_ad(st, a, al, &b) == NOISE_ERROR_NONE && b.size == n + 16 && b.data == buf, "encrypts");
    vf_assert_eq(buf, want, n, "ciphertext is the standard one");
    vf_assert_eq(buf + n, want + n, 16, "tag is the standard one");
    vf_assert_eq(a, ad, al, "associated data untouched");
    if (n < 60 || n == 64) {     /* the next nonce */
        memcpy(buf, pt, n); noise_buffer_set_inout(b, buf, n, n + 16);
        e = noise_cipherstate_encrypt_with_ad(st, 0, 0, &b);
        vf_assert(e == (nonce == 0xfffffffffffffffeULL ? NOISE_ERROR_INVALID_NONCE : NOISE_ERROR_NONE), "second message");
        if (e == NOISE_ERROR_NONE) {
            spec_crypt(rc, pt, n, key, nonce + 1); spec_tag(rc + n, key, nonce + 1, ad, 0, rc, n);
            vf_assert_eq(buf, rc, n + 16, "the second message uses the next nonce and no associated data");
        }
    }
    noise_cipherstate_free(st);
    st = mk(nonce); memcpy(buf, want, n + 16); noise_buffer_set_inout(b, buf, n + 16, n + 16);
    vf_assert(noise_cipherstate_decrypt_with_ad(st, a, al, &b) == NOISE_ERROR_NONE && b.size == n, "decryption inverts encryption");
    vf_assert_eq(buf, pt, n, "the plaintext comes back");
    noise_cipherstate_free(st); free(buf); free(a);
}
static void forge(size_t al, size_t n, uint64_t nonce)
{
    NoiseBuffer b; NoiseCipherState *st = mk(nonce); uint8_t *buf = malloc(n + 16), *a = malloc(al ? al : 1), t[16]; int e, ok;
    size_t i; uint8_t d[16];
    memcpy(a, ad, al); vf_bytes(rc, n, "received"); vf_bytes(d, 16, "delta");
    spec_tag(t, key, nonce, ad, al, rc, n);
    for (i = 0, ok = 1; i < 16; ++i) { rc[n + i] = t[i] ^ d[i]; ok &= vf_same(d + i, zeros, 1); }     /* any tag at all, written as a difference from the right one */
    memcpy(buf, rc, n + 16);
    noise_buffer_set_inout(b, buf, n + 16, n + 16);
    e = noise_cipherstate_decrypt_with_ad(st, a, al, &b);
    vf_assert(e == NOISE_ERROR_NONE || e == NOISE_ERROR_MAC_FAILURE, "accepted or a MAC failure");
    vf_assert((e == NOISE_ERROR_NONE) == (ok != 0), "accepted if and only if the tag is right");
    if (e == NOISE_ERROR_NONE) {
        vf_assert(b.size == n, "length without the tag");
        spec_crypt(want, rc, n, key, nonce); vf_assert_eq(buf, want, n, "the plaintext of the received ciphertext");
        vf_cover("accepted");
    } else {
        int keep, zero = 1;
        keep = vf_same(buf, rc, n); for (i = 0; i < n; ++i) zero &= vf_same(buf + i, zeros, 1);
        vf_assert(keep || zero, "nothing decrypted is left in the buffer after a failure");
        vf_assert(b.size <= n + 16, "size");
        /* the same object goes on with the same nonce */
        spec_crypt(want, pt, n, key, nonce); spec_tag(want + n, key, nonce, ad, al, want, n); memcpy(buf, want, n + 16); noise_buffer_set_inout(b, buf, n + 16, n + 16);
        vf_assert(noise_cipherstate_decrypt_with_ad(st, a, al, &b) == NOISE_ERROR_NONE && b.size == n, "a right message is still accepted after a forgery");
        vf_assert_eq(buf, pt, n, "and its plaintext comes back");
        vf_cover("refused");
    }
    noise_cipherstate_free(st); free(buf); free(a);
}
#if PART == 3 || PART == 6
extern int evp_fail_at, evp_calls, evp_live;
static void faults(size_t al, size_t n, uint64_t nonce)
{
    int at;
    for (at = 1; at <= 12; ++at) {
        NoiseBuffer b; NoiseCipherState *st; uint8_t *buf = malloc(n + 16); int e, dec;
        for (dec = 0; dec < 2; ++dec) {
            st = mk(nonce); spec_crypt(want, pt, n, key, nonce); spec_tag(want + n, key, nonce, ad, al, want, n);
            memcpy(buf, dec ? want : pt, n + (dec ? 16 : 0)); noise_buffer_set_inout(b, buf, n + (dec ? 16 : 0), n + 16);
            evp_calls = 0; evp_fail_at = at;
            e = dec ? noise_cipherstate_decrypt_with_ad(st, ad, al, &b) : noise_cipherstate_encrypt_with_ad(st, ad, al, &b);
            if (evp_calls < at) {
                vf_assert(e == NOISE_ERROR_NONE, "no failure, success");
                vf_assert_eq(buf, dec ? pt : want, n + (dec ? 0 : 16), "result"); vf_cover("no failure");
            } else {
                vf_assert(e != NOISE_ERROR_NONE, "a failure inside OpenSSL is reported");
                if (dec) { size_t i; int zero = 1; for (i = 0; i < n; ++i) zero &= vf_same(buf + i, zeros, 1); vf_assert(!n || zero || vf_same(buf, want, n), "nothing decrypted is left in the buffer after a failure"); }
                vf_cover("failure");
            }
            evp_fail_at = 0; noise_cipherstate_free(st); vf_assert(evp_live == 0, "contexts released");
        }
        free(buf);
    }
}
#endif
void harness(void)
{
    size_t i; uint64_t nonce;
#if PART == 6
    (void)i; (void)nonce;
    { NoiseCipherState *st = (NoiseCipherState *)key; int h = vf_heap_live();
      evp_calls = 0; evp_fail_at = 1;
      vf_assert(noise_cipherstate_new_by_id(&st, ID) == NOISE_ERROR_NO_MEMORY && !st, "no context, no cipher object");
      vf_assert(vf_heap_live() == h, "nothing leaked"); evp_fail_at = 0; }
#elif PART == 4
    uint8_t out[16], in[16]; uint32_t rk[4 * (MAXNR + 1)];
    vf_bytes(key, 32, "key"); vf_bytes(in, 16, "block");
    vf_assert(rijndaelKeySetupEnc(rk, key, 256) == 14, "fourteen rounds");
    rijndaelEncrypt(rk, 14, in, out);
    sp_aes256_expand(W, key); sp_aes256_block(want, W, in);
    vf_assert_eq(out, want, 16, "AES-256 of every block under every key is that of FIPS 197");
#elif PART == 5
    uint8_t h[16], x[16], y[16]; ghash_state g;
    vf_bytes(h, 16, "h"); vf_bytes(x, 16, "x");
    ghash_reset(&g, h); ghash_update(&g, x, 16); ghash_finalize(&g, y, 16);
    sp_gmul(want, x, h);
    vf_assert_eq(y, want, 16, "one GHASH product of every pair is that of SP 800-38D");
#else
    (void)nonce; (void)old;
#if CIPHER == 2 && PART != 2
    { static const uint8_t k[32] = { KEY }; memcpy(key, k, 32); }
#else
    vf_bytes(key, 32, "key");
#endif
#if CIPHER == 2
    sp_aes256_expand(W, key);
#endif
    nonce = vf_u64("nonce"); vf_assume(nonce != 0xffffffffffffffffULL);
#if PART == 2
    memset(ad, 0, sizeof(ad)); one(32, 0, nonce); one(0, 0, nonce);
#else
    vf_bytes(ad, sizeof(ad), "ad"); vf_bytes(pt, sizeof(pt), "plaintext");
    for (i = 0; i < sizeof(sizes) / sizeof(sizes[0]); ++i) {
#if PART == 0
        one(sizes[i][0], sizes[i][1], nonce);
#elif PART == 1
        forge(sizes[i][0], sizes[i][1], nonce);
#else
        faults(sizes[i][0], sizes[i][1], nonce);
#endif
    }
#endif
#endif
    vf_cover("end");
}
