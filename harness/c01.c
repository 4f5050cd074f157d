/* C01: nonce discipline over every bounded history of cipher calls. */
#include "stub_cipher.h"
#ifndef K
#define K 4
#endif
#define TOP 0xFFFFFFFFFFFFFFFFULL
void harness(void)
{
    NoiseCipherState *st = 0; NoiseBuffer b; uint8_t data[24], adb[4] = {0}, key[32] = {0}; uint64_t lo = 0; int known = 1, keyed = 0, i, e;
    uint64_t top_seen = 0;
    vf_assert(noise_cipherstate_new_by_id(&st, NOISE_CIPHER_CHACHAPOLY) == NOISE_ERROR_NONE, "create");
    sc.err_allowed = 1;
    for (i = 0; i < K; ++i) {
        uint8_t op = vf_u8("op") & 3; unsigned ec = sc.enc_calls, dc = sc.dec_calls;
        const uint8_t *ad = vf_u8("ad") & 1 ? (const uint8_t *)adb : (const uint8_t *)0; size_t al = ad ? vf_u8("al") & 3 : 0; int plain = vf_u8("plain") & 1;
        b.data = data; b.size = vf_u8("size") & 31; b.max_size = 24;
        size_t sz = b.size;
        if (op == 0) {
            vf_assert(noise_cipherstate_init_key(st, key, 32) == NOISE_ERROR_NONE, "init key succeeds");
            keyed = 1; lo = 0; known = 1;
        } else if (op == 1) {
            uint64_t v = vf_u64("nonce");
            e = noise_cipherstate_set_nonce(st, v);
            if (!keyed) vf_assert(e == NOISE_ERROR_INVALID_STATE, "set_nonce without a key is refused");
            else if (known && v < lo) vf_assert(e == NOISE_ERROR_INVALID_NONCE, "moving the nonce back is refused");
            else if (known) { vf_assert(e == NOISE_ERROR_NONE, "moving the nonce forward is allowed"); lo = v; }
            else { vf_assert(v >= lo || e != NOISE_ERROR_NONE, "moving the nonce back is refused"); if (e == NOISE_ERROR_NONE) { lo = v; known = 1; } }
        } else if (op == 2) {
            e = plain ? noise_cipherstate_encrypt(st, &b) : noise_cipherstate_encrypt_with_ad(st, ad, al, &b);
            vf_assert(sc.enc_calls <= ec + 1 && sc.dec_calls == dc, "one backend call at most");
            if (!keyed) vf_assert(sc.enc_calls == ec, "no encryption without a key");
            if (sc.enc_calls == ec + 1) {
                vf_assert(sc.n != TOP, "the last nonce value is never used");
                vf_assert(sc.n >= lo, "a nonce is never used twice under one key");
                if (known) vf_assert(sc.n == lo, "the next nonce is used");
                vf_assert(e == sc.result, "backend result reported");
                if (e == NOISE_ERROR_NONE) { lo = sc.n + 1; known = 1; }
                else { lo = sc.n; known = 0; }    /* after a backend error the counter may or may not have moved */
            } else if (keyed) {
                vf_assert(e != NOISE_ERROR_NONE, "a keyed encryption succeeds only by encrypting");
                vf_assert(b.size == sz, "a refused encryption leaves the size");
                if (sz + 16 <= 24 && known) { vf_assert(lo == TOP && e == NOISE_ERROR_INVALID_NONCE, "only the exhausted nonce is refused"); top_seen = 1; }
            }
        } else {
            e = plain ? noise_cipherstate_decrypt(st, &b) : noise_cipherstate_decrypt_with_ad(st, ad, al, &b);
            vf_assert(sc.dec_calls <= dc + 1 && sc.enc_calls == ec, "one backend call at most");
            if (sc.dec_calls == dc + 1) {
                vf_assert(sc.n != TOP, "the last nonce value is never used for decryption");
                vf_assert(sc.n >= lo, "decryption nonce never goes back");
                if (known) vf_assert(sc.n == lo, "the next nonce is used for decryption");
                vf_assert(e == sc.result, "backend result reported");
                if (e == NOISE_ERROR_NONE) lo = sc.n + 1; else lo = sc.n;
                known = 1;
            } else if (keyed && sz >= 16 && sz <= 24 && known) {
                vf_assert(lo == TOP && e == NOISE_ERROR_INVALID_NONCE, "only the exhausted nonce is refused (decrypt)");
            }
        }
    }
    if (top_seen) vf_cover("exhausted nonce reached");
    if (sc.enc_calls >= 2) vf_cover("two encryptions");
#if K > 3
    if (sc.dec_calls >= 2 && sc.enc_calls) vf_cover("mixed history");
#endif
    noise_cipherstate_free(st);
    vf_cover("end");
}
