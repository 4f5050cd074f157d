/* Ideal Poly1305 and stand-ins for the parts of libsodium and OpenSSL that the cipher backends call. */
#include "vf.h"
#include "spec_aead.h"
static uint8_t pbuf[32 + 600]; static size_t pn;
static void p_init(const uint8_t *k) { memcpy(pbuf, k, 32); pn = 32; }
static void p_update(const uint8_t *m, size_t n) { if (n) memcpy(pbuf + pn, m, n); pn += n; }
static void p_final(uint8_t *t) { vf_uf("poly1305", t, 16, pbuf, pn); }
#if defined(STUB_SODIUM)
#include <sodium.h>
int crypto_stream_chacha20_ietf_xor_ic(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *iv, uint32_t ic, const unsigned char *k) { sp_chacha_xor(c, m, n, k, ic, iv); return 0; }
int crypto_stream_chacha20_ietf_xor(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *iv, const unsigned char *k) { sp_chacha_xor(c, m, n, k, 0, iv); return 0; }
int crypto_onetimeauth_poly1305_init(crypto_onetimeauth_poly1305_state *s, const unsigned char *k) { p_init(k); return 0; }
int crypto_onetimeauth_poly1305_update(crypto_onetimeauth_poly1305_state *s, const unsigned char *m, unsigned long long n) { p_update(m, n); return 0; }
int crypto_onetimeauth_poly1305_final(crypto_onetimeauth_poly1305_state *s, unsigned char *t) { p_final(t); return 0; }
#else
#include "crypto/donna/poly1305-donna.h"
void poly1305_init(poly1305_context *c, const unsigned char k[32]) { p_init(k); }
void poly1305_update(poly1305_context *c, const unsigned char *m, size_t n) { p_update(m, n); }
void poly1305_finish(poly1305_context *c, unsigned char t[16]) { p_final(t); }
void poly1305_auth(unsigned char t[16], const unsigned char *m, size_t n, const unsigned char k[32]) { p_init(k); p_update(m, n); p_final(t); }
#endif
/* ideal AES-256-GCM */
void ideal_gcm_crypt(uint8_t *out, const uint8_t *in, size_t n, const uint8_t k[32], const uint8_t iv[12])
{
    uint8_t b[44], ks[600]; size_t i;
    memcpy(b, k, 32); memcpy(b + 32, iv, 12);
    for (i = 0; i < n; i += 16) { uint8_t c[48]; memcpy(c, b, 44); c[44] = c[45] = c[46] = 0; c[47] = (uint8_t)(2 + i / 16); vf_uf("gcmks", ks + i, 16, c, 48); }
    for (i = 0; i < n; ++i) out[i] = in[i] ^ ks[i];
}
void ideal_gcm_tag(uint8_t tag[16], const uint8_t k[32], const uint8_t iv[12], const uint8_t *ad, size_t al, const uint8_t *ct, size_t n)
{
    uint8_t b[44 + 600 + 16]; size_t p = 44;
    memcpy(b, k, 32); memcpy(b + 32, iv, 12);
    if (al) memcpy(b + p, ad, al);
    p += al;
    if (n) memcpy(b + p, ct, n);
    p += n; sp_be64(b + p, al); sp_be64(b + p + 8, n); p += 16;
    vf_uf("gcmtag", tag, 16, b, p);
}
#if defined(STUB_SODIUM)
struct actx { uint8_t k[32]; };
int crypto_aead_aes256gcm_is_available(void) { return 1; }
int crypto_aead_aes256gcm_beforenm(crypto_aead_aes256gcm_state *s, const unsigned char *k) { memcpy(((struct actx *)s)->k, k, 32); return 0; }
int crypto_aead_aes256gcm_encrypt_afternm(unsigned char *c, unsigned long long *cl, const unsigned char *m, unsigned long long n, const unsigned char *ad, unsigned long long al,
    const unsigned char *nsec, const unsigned char *iv, const crypto_aead_aes256gcm_state *s)
{
    const uint8_t *k = ((const struct actx *)s)->k;
    ideal_gcm_crypt(c, m, n, k, iv); ideal_gcm_tag(c + n, k, iv, ad, al, c, n);
    if (cl) *cl = n + 16;
    return 0;
}
int crypto_aead_aes256gcm_decrypt_afternm(unsigned char *m, unsigned long long *ml, unsigned char *nsec, const unsigned char *c, unsigned long long n, const unsigned char *ad, unsigned long long al,
    const unsigned char *iv, const crypto_aead_aes256gcm_state *s)
{
    const uint8_t *k = ((const struct actx *)s)->k; uint8_t t[16];
    if (n < 16) return -1;
    ideal_gcm_tag(t, k, iv, ad, al, c, n - 16);
    if (!vf_same(t, c + n - 16, 16)) return -1;
    ideal_gcm_crypt(m, c, n - 16, k, iv);
    if (ml) *ml = n - 16;
    return 0;
}
#endif
#if defined(STUB_OPENSSL)
#include <openssl/evp.h>
#include <openssl/err.h>
struct evp_cipher_ctx_st { int enc, dead; uint8_t k[32], iv[12], ad[64], ct[256], tag[16]; size_t al, n; int final, tagset; };
int evp_fail_at, evp_calls, evp_live;     /* the evp_fail_at-th call fails */
static int bad(void) { return ++evp_calls == evp_fail_at; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { if (bad()) return 0; ++evp_live; return (EVP_CIPHER_CTX *)calloc(1, sizeof(EVP_CIPHER_CTX)); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (c) { --evp_live; free(c); } }
int EVP_CIPHER_CTX_reset(EVP_CIPHER_CTX *c) { if (bad()) return 0; memset(c, 0, sizeof(*c)); c->dead = 1; return 1; }
const EVP_CIPHER *EVP_aes_256_gcm(void) { static int x; return (const EVP_CIPHER *)&x; }
static int init(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv, int enc)
{
    vf_assert(t == EVP_aes_256_gcm() && k && iv, "AES-256-GCM is selected with key and nonce");
    if (bad()) return 0;
    memset(c, 0, sizeof(*c)); memcpy(c->k, k, 32); memcpy(c->iv, iv, 12); c->enc = enc; return 1;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv) { return init(c, t, k, iv, 1); }
int EVP_DecryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv) { return init(c, t, k, iv, 0); }
static int update(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *p, int n)
{
    vf_assert(!c->dead && !c->final, "the context is in use");
    if (bad()) return 0;
    if (!o) { memcpy(c->ad + c->al, p, n); c->al += n; *ol = n; return 1; }
    if (!c->enc && n) memcpy(c->ct + c->n, p, n);
    uint8_t tmp[256 + 256]; memset(tmp, 0, c->n); if (n) memcpy(tmp + c->n, p, n);
    ideal_gcm_crypt(tmp, tmp, c->n + n, c->k, c->iv);
    if (n) memcpy(o, tmp + c->n, n);
    if (c->enc && n) memcpy(c->ct + c->n, o, n);
    c->n += n; *ol = n; return 1;
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *p, int n) { vf_assert(c->enc, "encrypting"); return update(c, o, ol, p, n); }
int EVP_DecryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *p, int n) { vf_assert(!c->enc, "decrypting"); return update(c, o, ol, p, n); }
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *o, int *ol) { if (bad()) return 0; *ol = 0; c->final = 1; return 1; }
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *o, int *ol)
{
    uint8_t t[16];
    if (bad()) return 0;
    *ol = 0; c->final = 1;
    ideal_gcm_tag(t, c->k, c->iv, c->ad, c->al, c->ct, c->n);
    return c->tagset && vf_same(t, c->tag, 16);
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *c, int op, int n, void *p)
{
    if (bad()) return 0;
    if (op == EVP_CTRL_GCM_GET_TAG) { vf_assert(c->enc && c->final && n == 16, "tag asked for after the message"); ideal_gcm_tag(p, c->k, c->iv, c->ad, c->al, c->ct, c->n); return 1; }
    if (op == EVP_CTRL_GCM_SET_TAG) { vf_assert(!c->enc && !c->final && n == 16, "tag given before the end"); memcpy(c->tag, p, 16); c->tagset = 1; return 1; }
    vf_assert(op == EVP_CTRL_GCM_SET_IVLEN && n == 12, "known control"); return 1;
}
void ERR_clear_error(void) {}
#endif
