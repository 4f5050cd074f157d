/* C02: lengths, capacities and argument checks of the cipher calls, with symbolic sizes. */
#include "stub_cipher.h"
#define LIM 65535
void harness(void)
{
    NoiseCipherState *st = 0; NoiseBuffer b, *pb = &b; uint8_t key[32] = {0}; int e, keyed, enc; uint8_t adbuf[4];
    size_t size = vf_size("size"), max = vf_size("max"), adl; const uint8_t *ad = adbuf; uint8_t store[1]; uint8_t *dp = store;
    vf_assert(noise_cipherstate_new_by_id(&st, (vf_u8("alg") & 1) ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM) == NOISE_ERROR_NONE, "create");
    vf_assert(noise_cipherstate_get_key_length(st) == 32 && noise_cipherstate_get_mac_length(st) == 16, "lengths");
    vf_assert(noise_cipherstate_has_key(st) == 0, "a new cipher has no key");
    keyed = vf_u8("keyed") & 1; enc = vf_u8("enc") & 1;
    if (keyed) {
        size_t kl = vf_size("keylen");
        if (kl != 32) {
            vf_assert(noise_cipherstate_init_key(st, key, kl) == NOISE_ERROR_INVALID_LENGTH, "wrong key length refused");
            vf_assert(noise_cipherstate_has_key(st) == 0 && sc.key_calls == 0, "refused key not used");
        }
        vf_assert(noise_cipherstate_init_key(st, 0, 32) == NOISE_ERROR_INVALID_PARAM, "null key refused");
        vf_assert(noise_cipherstate_init_key(0, key, 32) == NOISE_ERROR_INVALID_PARAM, "null state refused");
        vf_assert(noise_cipherstate_init_key(st, key, 32) == NOISE_ERROR_NONE, "key accepted");
        vf_assert(noise_cipherstate_has_key(st) == 1, "has key");
    }
    adl = vf_size("adlen");
    if (vf_u8("nullad") & 1) ad = 0; else vf_assume(adl <= 4);
    if (vf_u8("nulldata") & 1) dp = 0;
    if (vf_u8("nullbuf") & 1) pb = 0;
    b.data = dp; b.size = size; b.max_size = max;       /* the backend never touches the data here */
    NoiseCipherState *arg = (vf_u8("nullst") & 1) ? 0 : st;
    int with_ad = vf_u8("with_ad") & 1;
    if (!with_ad) { ad = 0; adl = 0; }
    if (enc) e = with_ad ? noise_cipherstate_encrypt_with_ad(arg, ad, adl, pb) : noise_cipherstate_encrypt(arg, pb);
    else e = with_ad ? noise_cipherstate_decrypt_with_ad(arg, ad, adl, pb) : noise_cipherstate_decrypt(arg, pb);
    unsigned calls = sc.enc_calls + sc.dec_calls;
    if (!arg || !pb || !dp || (!ad && adl)) {
        vf_assert(e == NOISE_ERROR_INVALID_PARAM && calls == 0, "missing arguments refused");
        vf_cover("bad args");
    } else if (size > max) {
        vf_assert(e == NOISE_ERROR_INVALID_LENGTH && calls == 0, "inconsistent buffer refused");
    } else if (!keyed) {
        vf_assert(calls == 0, "no key: data untouched");
        vf_assert(e == (size > LIM ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_NONE), "passthrough up to the limit");
        vf_cover("passthrough");
    } else if (enc) {
        if (size + 16 > LIM || size > LIM || max - size < 16) {
            vf_assert(e == NOISE_ERROR_INVALID_LENGTH && calls == 0, "ciphertext that cannot fit is refused");
            vf_cover("enc refused");
        } else {
            vf_assert(e == NOISE_ERROR_NONE && sc.enc_calls == 1 && sc.dec_calls == 0, "encryption accepted");
            vf_assert(sc.len == size && sc.data == dp && sc.ad_len == adl && (sc.ad == ad || !adl), "whole message and associated data encrypted");
            vf_assert(b.size == size + 16, "ciphertext is one MAC longer");
            vf_assert(b.size <= b.max_size && b.size <= LIM, "within capacity and limit");
            vf_cover("enc ok");
            if (b.size == LIM) vf_cover("enc max");
        }
    } else {
        if (size > LIM || size < 16) {
            vf_assert(e == NOISE_ERROR_INVALID_LENGTH && calls == 0, "ciphertext of impossible size refused");
        } else {
            vf_assert(sc.dec_calls == 1 && sc.enc_calls == 0, "decryption accepted");
            vf_assert(sc.len == size - 16 && sc.data == dp && sc.ad_len == adl && (sc.ad == ad || !adl), "whole ciphertext decrypted");
            vf_assert(e == sc.result, "verdict reported");
            vf_assert(b.size == (e == NOISE_ERROR_NONE ? size - 16 : size), "one MAC removed on success only");
            vf_cover("dec");
        }
    }
    if (e != NOISE_ERROR_NONE && pb) vf_assert(b.size == size && b.max_size == max && b.data == dp, "refused call leaves the buffer");
    if (pb) vf_assert(b.max_size == max && b.data == dp, "buffer identity kept");
    noise_cipherstate_free(st);
    vf_cover("end");
}
