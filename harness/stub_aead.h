/* An ideal AEAD behind the cipher backend interface: keystream and tag are uninterpreted functions of key, nonce and
 * data; a tag is accepted exactly when it is the tag of the same key, nonce, associated data and ciphertext. */
#ifndef STUB_AEAD_H
#define STUB_AEAD_H
typedef struct { struct NoiseCipherState_s parent; uint8_t key[32]; } SaState;
static const char *sa_ks(int id) { return id == NOISE_CIPHER_CHACHAPOLY ? "ks-chachapoly" : "ks-aesgcm"; }
static const char *sa_tagn(int id) { return id == NOISE_CIPHER_CHACHAPOLY ? "tag-chachapoly" : "tag-aesgcm"; }
#ifndef SA_MAX
#define SA_MAX 2400
#endif
static uint8_t sa_buf[SA_MAX + 600];
static void sa_crypt(int id, const uint8_t *key, uint64_t n, uint8_t *data, size_t len)
{
    static uint8_t ks[SA_MAX]; size_t i;
    if (!len) return;
    vf_assert(len <= sizeof ks, "AEAD stub capacity");
    memcpy(sa_buf, key, 32); memcpy(sa_buf + 32, &n, 8);
    vf_uf(sa_ks(id), ks, len, sa_buf, 40);
    for (i = 0; i < len; ++i) data[i] ^= ks[i];
}
static void sa_tag(int id, const uint8_t *key, uint64_t n, const uint8_t *ad, size_t adl, const uint8_t *ct, size_t len, uint8_t tag[16])
{
    uint64_t l = adl;
    vf_assert(48 + adl + len <= sizeof sa_buf, "AEAD stub capacity");
    memcpy(sa_buf, key, 32); memcpy(sa_buf + 32, &n, 8); memcpy(sa_buf + 40, &l, 8);
    if (adl) memcpy(sa_buf + 48, ad, adl);
    if (len) memcpy(sa_buf + 48 + adl, ct, len);
    vf_uf(sa_tagn(id), tag, 16, sa_buf, 48 + adl + len);
}
static void sa_init_key(NoiseCipherState *st, const uint8_t *key) { memcpy(((SaState *)st)->key, key, 32); }
static int sa_encrypt(NoiseCipherState *st, const uint8_t *ad, size_t adl, uint8_t *data, size_t len)
{
    SaState *s = (SaState *)st; uint8_t t[16];
    sa_crypt(st->cipher_id, s->key, st->n, data, len);
    sa_tag(st->cipher_id, s->key, st->n, ad, adl, data, len, t);
    memcpy(data + len, t, 16);
    return NOISE_ERROR_NONE;
}
static int sa_decrypt(NoiseCipherState *st, const uint8_t *ad, size_t adl, uint8_t *data, size_t len)
{
    SaState *s = (SaState *)st; uint8_t t[16];
    sa_tag(st->cipher_id, s->key, st->n, ad, adl, data, len, t);
    if (!vf_ideal_same(t, data + len, 16)) return NOISE_ERROR_MAC_FAILURE;
    sa_crypt(st->cipher_id, s->key, st->n, data, len);
    return NOISE_ERROR_NONE;
}
static NoiseCipherState *sa_new(int id);
static NoiseCipherState *sa_new_c(void) { return sa_new(NOISE_CIPHER_CHACHAPOLY); }
static NoiseCipherState *sa_new_a(void) { return sa_new(NOISE_CIPHER_AESGCM); }
#ifndef SA_ALLOC
#define SA_ALLOC(n) noise_new_object(n)
#endif
static NoiseCipherState *sa_new(int id)
{
    SaState *s = (SaState *)SA_ALLOC(sizeof(SaState));
    if (!s) return 0;
    s->parent.cipher_id = id; s->parent.key_len = 32; s->parent.mac_len = 16;
    s->parent.create = id == NOISE_CIPHER_CHACHAPOLY ? sa_new_c : sa_new_a;
    s->parent.init_key = sa_init_key; s->parent.encrypt = sa_encrypt; s->parent.decrypt = sa_decrypt; s->parent.destroy = 0;
    return &s->parent;
}
NoiseCipherState *noise_chachapoly_new(void) { return sa_new_c(); }
NoiseCipherState *noise_aesgcm_new(void) { return sa_new_a(); }
#endif
