/* A recording stand-in for a cipher backend: it observes the nonce and the lengths it is handed and
 * answers with a value chosen by the solver. */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
static struct {
    unsigned enc_calls, dec_calls, key_calls;
    uint64_t n; size_t len, ad_len; const uint8_t *ad; uint8_t *data; int result; int err_allowed;
} sc;
static void sc_init_key(NoiseCipherState *st, const uint8_t *key) { (void)st; (void)key; sc.key_calls++; }
static int sc_encrypt(NoiseCipherState *st, const uint8_t *ad, size_t ad_len, uint8_t *data, size_t len)
{
    sc.enc_calls++; sc.n = st->n; sc.len = len; sc.ad = ad; sc.ad_len = ad_len; sc.data = data;
    sc.result = (sc.err_allowed && (vf_u8("encerr") & 1)) ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_NONE;
    return sc.result;
}
static int sc_decrypt(NoiseCipherState *st, const uint8_t *ad, size_t ad_len, uint8_t *data, size_t len)
{
    sc.dec_calls++; sc.n = st->n; sc.len = len; sc.ad = ad; sc.ad_len = ad_len; sc.data = data;
    sc.result = (vf_u8("decerr") & 1) ? NOISE_ERROR_MAC_FAILURE : NOISE_ERROR_NONE;
    return sc.result;
}
static NoiseCipherState *sc_new(int id)
{
    NoiseCipherState *s = (NoiseCipherState *)noise_new_object(sizeof(NoiseCipherState));
    if (!s) return 0;
    s->cipher_id = id; s->key_len = 32; s->mac_len = 16;
    s->init_key = sc_init_key; s->encrypt = sc_encrypt; s->decrypt = sc_decrypt; s->create = 0; s->destroy = 0;
    return s;
}
NoiseCipherState *noise_chachapoly_new(void) { return sc_new(NOISE_CIPHER_CHACHAPOLY); }
NoiseCipherState *noise_aesgcm_new(void) { return sc_new(NOISE_CIPHER_AESGCM); }
