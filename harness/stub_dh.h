/* Ideal key agreement behind the DHState backend interface.  Curve objects: pub = vf_pub(priv), shared = vf_dh(priv, pub),
 * commutative and otherwise uninterpreted.  New Hope: the same core with the initiator/responder asymmetry, dependent
 * generation and role-dependent sizes of the real object (public sizes reduced to 40 and 48 bytes). */
#ifndef STUB_DH_H
#define STUB_DH_H
typedef struct { struct NoiseDHState_s parent; int n; int generated; uint8_t priv[64], pub[64], ss[32]; } SdState;
static uint8_t sd_last[64];     /* private key of the latest generation */
static int sd_generated;        /* how many generations so far */
static unsigned sd_alg(int id) { return id == NOISE_DH_CURVE25519 ? 1 : id == NOISE_DH_CURVE448 ? 2 : 3; }
#define SD_NHA 40
#define SD_NHB 48
/* New Hope functions */
static void sd_nh_pub_a(uint8_t out[SD_NHA], const uint8_t priv[64]) { uint8_t h[32]; vf_uf("nh-key", h, 32, priv, 64); vf_pub(out, h, 32, 3); vf_uf("nh-a", out + 32, SD_NHA - 32, priv, 64); }
static void sd_nh_pub_b(uint8_t out[SD_NHB], uint8_t ss[32], const uint8_t priv[32], const uint8_t puba[SD_NHA])
{
    uint8_t b[32 + SD_NHA];
    vf_pub(out, priv, 32, 3); memcpy(b, priv, 32); memcpy(b + 32, puba, SD_NHA); vf_uf("nh-b", out + 32, SD_NHB - 32, b, sizeof b);
    vf_dh(ss, priv, puba, 32, 3);
}
static void sd_nh_ss_a(uint8_t ss[32], const uint8_t priv[64], const uint8_t pubb[SD_NHB]) { uint8_t h[32]; vf_uf("nh-key", h, 32, priv, 64); vf_dh(ss, h, pubb, 32, 3); }
/* curves */
static int sd_generate(NoiseDHState *st, const NoiseDHState *other)
{
    SdState *s = (SdState *)st; (void)other;
    vf_bytes(s->priv, s->n, "key"); vf_pub(s->pub, s->priv, s->n, sd_alg(st->dh_id));
    memcpy(sd_last, s->priv, s->n); ++sd_generated;
    return NOISE_ERROR_NONE;
}
static int sd_set_private(NoiseDHState *st, const uint8_t *priv) { SdState *s = (SdState *)st; memcpy(s->priv, priv, s->n); vf_pub(s->pub, s->priv, s->n, sd_alg(st->dh_id)); return NOISE_ERROR_NONE; }
static int sd_set_keypair(NoiseDHState *st, const uint8_t *priv, const uint8_t *pub)
{
    SdState *s = (SdState *)st;
    sd_set_private(st, priv);
    return vf_ideal_same(s->pub, pub, s->n) ? NOISE_ERROR_NONE : NOISE_ERROR_INVALID_PUBLIC_KEY;
}
static int sd_validate(const NoiseDHState *st, const uint8_t *pub) { (void)st; (void)pub; return NOISE_ERROR_NONE; }
static int sd_copy(NoiseDHState *st, const NoiseDHState *from, const NoiseDHState *other)
{
    SdState *s = (SdState *)st; const SdState *f = (const SdState *)from; (void)other;
    memcpy(s->priv, f->priv, s->n); memcpy(s->pub, f->pub, s->n);
    return NOISE_ERROR_NONE;
}
static int sd_calculate(const NoiseDHState *priv, const NoiseDHState *pub, uint8_t *out)
{
    vf_dh(out, priv->private_key, pub->public_key, ((const SdState *)priv)->n, sd_alg(priv->dh_id));
    return NOISE_ERROR_NONE;
}
/* New Hope */
static int sd_nh_generate(NoiseDHState *st, const NoiseDHState *other)
{
    SdState *s = (SdState *)st;
    vf_bytes(s->priv, st->private_key_len, "nhkey"); memcpy(sd_last, s->priv, st->private_key_len); ++sd_generated;
    if (st->role == NOISE_ROLE_RESPONDER) {
        if (!other || other->role == NOISE_ROLE_RESPONDER) return NOISE_ERROR_INVALID_STATE;
        sd_nh_pub_b(s->pub, s->ss, s->priv, other->public_key);
    } else {
        sd_nh_pub_a(s->pub, s->priv);
    }
    s->generated = 1;
    return NOISE_ERROR_NONE;
}
static int sd_nh_set_private(NoiseDHState *st, const uint8_t *priv)
{
    SdState *s = (SdState *)st;
    memcpy(s->priv, priv, st->private_key_len);
    if (st->role == NOISE_ROLE_RESPONDER) { memset(s->pub, 0, sizeof s->pub); s->generated = 0; }
    else { sd_nh_pub_a(s->pub, s->priv); s->generated = 1; }
    return NOISE_ERROR_NONE;
}
static int sd_nh_set_keypair(NoiseDHState *st, const uint8_t *priv, const uint8_t *pub) { (void)pub; return sd_nh_set_private(st, priv); }
static int sd_nh_copy(NoiseDHState *st, const NoiseDHState *from, const NoiseDHState *other)
{
    SdState *s = (SdState *)st; const SdState *f = (const SdState *)from;
    memcpy(s->priv, f->priv, 64); memcpy(s->pub, f->pub, 64); memcpy(s->ss, f->ss, 32); s->generated = f->generated;
    if (st->role == NOISE_ROLE_RESPONDER && !s->generated && from->key_type == NOISE_KEY_TYPE_KEYPAIR && other) {
        sd_nh_pub_b(s->pub, s->ss, s->priv, other->public_key); s->generated = 1;
    }
    return NOISE_ERROR_NONE;
}
static int sd_nh_calculate(const NoiseDHState *priv, const NoiseDHState *pub, uint8_t *out)
{
    SdState *s = (SdState *)priv;
    if (priv->role == NOISE_ROLE_RESPONDER) { if (!s->generated) sd_nh_pub_b(s->pub, s->ss, s->priv, pub->public_key); memcpy(out, s->ss, 32); }
    else sd_nh_ss_a(out, s->priv, pub->public_key);
    return NOISE_ERROR_NONE;
}
static void sd_nh_role(NoiseDHState *st)
{
    if (st->role == NOISE_ROLE_RESPONDER) { st->private_key_len = 32; st->public_key_len = SD_NHB; }
    else { st->private_key_len = 64; st->public_key_len = SD_NHA; }
}
#ifndef SD_ALLOC
#define SD_ALLOC(n) noise_new_object(n)
#endif
static NoiseDHState *sd_new(int id)
{
    SdState *s = (SdState *)SD_ALLOC(sizeof(SdState)); struct NoiseDHState_s *p = &s->parent;
    if (!s) return 0;
    p->dh_id = id; p->private_key = s->priv; p->public_key = s->pub;
    if (id == NOISE_DH_NEWHOPE) {
        p->ephemeral_only = 1; p->private_key_len = 64; p->public_key_len = SD_NHA; p->shared_key_len = 32;
        p->generate_keypair = sd_nh_generate; p->set_keypair = sd_nh_set_keypair; p->set_keypair_private = sd_nh_set_private;
        p->validate_public_key = sd_validate; p->copy = sd_nh_copy; p->calculate = sd_nh_calculate; p->change_role = sd_nh_role;
    } else {
        s->n = id == NOISE_DH_CURVE25519 ? 32 : 56; p->nulls_allowed = 1;
        p->private_key_len = p->public_key_len = p->shared_key_len = (uint16_t)s->n;
        p->generate_keypair = sd_generate; p->set_keypair = sd_set_keypair; p->set_keypair_private = sd_set_private;
        p->validate_public_key = sd_validate; p->copy = sd_copy; p->calculate = sd_calculate;
    }
    return p;
}
NoiseDHState *noise_curve25519_new(void) { return sd_new(NOISE_DH_CURVE25519); }
NoiseDHState *noise_curve448_new(void) { return sd_new(NOISE_DH_CURVE448); }
NoiseDHState *noise_newhope_new(void) { return sd_new(NOISE_DH_NEWHOPE); }
#endif
