/* Small stand-ins for the primitive backends, for checks of lengths and memory: every backend function touches exactly
 * the memory the interface gives it (reading and writing every byte of it) and answers with solver-chosen values.
 * Key agreement objects are 3 bytes (curves) and 4 or 5 bytes (New Hope's asymmetric sizes); hashes are 4 bytes with
 * 8-byte blocks and the cipher has a 4-byte key and a 2-byte MAC. */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
#define SM_HASH 4
#define SM_MAC 2
static uint8_t sm_sink;
static void sm_read(const uint8_t *p, size_t n)
{
#ifdef VF_CBMC
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(p, n), "VF the backend is given readable memory"); (void)p; (void)n;
#else
    static uint8_t t[4096]; (void)sm_sink; if (n) memcpy(t, p, n);
#endif
}
static void sm_write(uint8_t *p, size_t n)
{
#ifdef VF_CBMC
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(p, n), "VF the backend is given writable memory"); (void)p; (void)n;
#else
    if (n) memset(p, 0, n);
#endif
}
static void sm_hreset(NoiseHashState *s) { (void)s; }
static void sm_hupdate(NoiseHashState *s, const uint8_t *d, size_t n) { (void)s; sm_read(d, n); }
static void sm_hfinal(NoiseHashState *s, uint8_t *out) { sm_write(out, s->hash_len); }
static NoiseHashState *sm_hnew(int id)
{
    NoiseHashState *h = (NoiseHashState *)noise_new_object(sizeof(NoiseHashState)); if (!h) return 0;
    h->hash_id = id; h->hash_len = SM_HASH; h->block_len = 8; h->reset = sm_hreset; h->update = sm_hupdate; h->finalize = sm_hfinal; h->destroy = 0; return h;
}
NoiseHashState *noise_sha256_new(void) { return sm_hnew(NOISE_HASH_SHA256); }
NoiseHashState *noise_sha512_new(void) { return sm_hnew(NOISE_HASH_SHA512); }
NoiseHashState *noise_blake2s_new(void) { return sm_hnew(NOISE_HASH_BLAKE2s); }
NoiseHashState *noise_blake2b_new(void) { return sm_hnew(NOISE_HASH_BLAKE2b); }
static void sm_ckey(NoiseCipherState *s, const uint8_t *k) { sm_read(k, s->key_len); }
static int sm_cenc(NoiseCipherState *s, const uint8_t *ad, size_t an, uint8_t *d, size_t n) { sm_read(ad, an); sm_read(d, n); sm_write(d, n + s->mac_len); return NOISE_ERROR_NONE; }
static int sm_cdec(NoiseCipherState *s, const uint8_t *ad, size_t an, uint8_t *d, size_t n)
{
    sm_read(ad, an); sm_read(d, n + s->mac_len);
    if (vf_u8("forged") & 1) return NOISE_ERROR_MAC_FAILURE;
    sm_write(d, n); return NOISE_ERROR_NONE;
}
static NoiseCipherState *sm_cnew(int id)
{
    NoiseCipherState *s = (NoiseCipherState *)noise_new_object(sizeof(NoiseCipherState)); if (!s) return 0;
    s->cipher_id = id; s->key_len = SM_HASH; s->mac_len = SM_MAC; s->init_key = sm_ckey; s->encrypt = sm_cenc; s->decrypt = sm_cdec; s->create = 0; s->destroy = 0; return s;
}
NoiseCipherState *noise_chachapoly_new(void) { return sm_cnew(NOISE_CIPHER_CHACHAPOLY); }
NoiseCipherState *noise_aesgcm_new(void) { return sm_cnew(NOISE_CIPHER_AESGCM); }
typedef struct { struct NoiseDHState_s parent; uint8_t priv[4], pub[8]; } SmDh;
static int sm_dgen(NoiseDHState *s, const NoiseDHState *o)
{
    SmDh *d = (SmDh *)s;
    if (s->ephemeral_only && s->role == NOISE_ROLE_RESPONDER) { if (!o || o->role == NOISE_ROLE_RESPONDER) return NOISE_ERROR_INVALID_STATE; sm_read(o->public_key, o->public_key_len); }
    d->pub[0] = vf_u8("pub"); return (vf_u8("dherr") & 7) ? NOISE_ERROR_NONE : NOISE_ERROR_SYSTEM;
}
static int sm_dpriv(NoiseDHState *s, const uint8_t *p) { (void)s; sm_read(p, s->private_key_len); return NOISE_ERROR_NONE; }
static int sm_dpair(NoiseDHState *s, const uint8_t *p, const uint8_t *q) { sm_read(p, s->private_key_len); sm_read(q, s->public_key_len); return (vf_u8("dherr") & 1) ? NOISE_ERROR_INVALID_PUBLIC_KEY : NOISE_ERROR_NONE; }
static int sm_dval(const NoiseDHState *s, const uint8_t *q) { sm_read(q, s->public_key_len); return (vf_u8("dherr") & 1) ? NOISE_ERROR_INVALID_PUBLIC_KEY : NOISE_ERROR_NONE; }
static int sm_dcopy(NoiseDHState *s, const NoiseDHState *f, const NoiseDHState *o) { (void)o; memcpy(((SmDh *)s)->pub, ((const SmDh *)f)->pub, 8); memcpy(((SmDh *)s)->priv, ((const SmDh *)f)->priv, 4); return NOISE_ERROR_NONE; }
static int sm_dcalc(const NoiseDHState *a, const NoiseDHState *b, uint8_t *out) { sm_read(a->private_key, a->private_key_len); sm_read(b->public_key, b->public_key_len); sm_write(out, a->shared_key_len); return (vf_u8("dherr") & 7) ? NOISE_ERROR_NONE : NOISE_ERROR_INVALID_PUBLIC_KEY; }
static void sm_drole(NoiseDHState *s) { if (s->dh_id == NOISE_DH_NEWHOPE) { s->private_key_len = s->role == NOISE_ROLE_RESPONDER ? 2 : 4; s->public_key_len = s->role == NOISE_ROLE_RESPONDER ? 5 : 4; } }
static NoiseDHState *sm_dnew(int id, int nh)
{
    SmDh *d = (SmDh *)noise_new_object(sizeof(SmDh)); NoiseDHState *s = &d->parent; if (!d) return 0;
    s->dh_id = id; s->nulls_allowed = !nh; s->ephemeral_only = nh; s->private_key_len = nh ? 4 : 3; s->public_key_len = nh ? 4 : 3; s->shared_key_len = 3;
    s->private_key = d->priv; s->public_key = d->pub;
    s->generate_keypair = sm_dgen; s->set_keypair = sm_dpair; s->set_keypair_private = sm_dpriv; s->validate_public_key = sm_dval; s->copy = sm_dcopy; s->calculate = sm_dcalc; s->change_role = nh ? sm_drole : 0; s->destroy = 0;
    return s;
}
NoiseDHState *noise_curve25519_new(void) { return sm_dnew(NOISE_DH_CURVE25519, 0); }
NoiseDHState *noise_curve448_new(void) { return sm_dnew(NOISE_DH_CURVE448, 0); }
NoiseDHState *noise_newhope_new(void) { return sm_dnew(NOISE_DH_NEWHOPE, 1); }
