/* G01: SignState objects over histories of calls, over ideal signature functions (G02).  -DK operations, -DSODIUM, -DFIRST */
#include <noise/protocol.h>
#include "protocol/internal.h"
#include "vf.h"
#define N 32
#define ID NOISE_SIGN_ED25519
#define L 5     /* message length */
#if SODIUM
/* libsodium's secret key is seed || public key */
static void sig(uint8_t *s, const uint8_t *m, size_t n, const uint8_t *skpk) { uint8_t t[64 + L]; memcpy(t, skpk, 64); memcpy(t + 64, m, n); vf_uf("sign", s, 64, t, 64 + n); }
int crypto_sign_ed25519_seed_keypair(unsigned char *pk, unsigned char *sk, const unsigned char *seed) { vf_pub(pk, seed, 32, 4); memcpy(sk, seed, 32); memcpy(sk + 32, pk, 32); return 0; }
static uint8_t rnd[64]; static int rnds;
int crypto_sign_ed25519_keypair(unsigned char *pk, unsigned char *sk) { uint8_t seed[32]; vf_bytes(seed, 32, "rnd"); memcpy(rnd, seed, 32); rnds += 32; return crypto_sign_ed25519_seed_keypair(pk, sk, seed); }
int crypto_sign_ed25519_detached(unsigned char *s, unsigned long long *l, const unsigned char *m, unsigned long long n, const unsigned char *sk) { sig(s, m, n, sk); if (l) *l = 64; return 0; }
int crypto_sign_ed25519_verify_detached(const unsigned char *s, const unsigned char *m, unsigned long long n, const unsigned char *pk) { uint8_t t[96 + L], r; memcpy(t, pk, 32); memcpy(t + 32, s, 64); memcpy(t + 96, m, n); vf_uf("verify", &r, 1, t, 96 + n); return -(int)(r & 1); }
static void PUB(uint8_t *o, const uint8_t *k) { vf_pub(o, k, 32, 4); }
static void SIGN(uint8_t *s, const uint8_t *m, size_t n, const uint8_t *k, const uint8_t *p) { uint8_t t[64]; memcpy(t, k, 32); memcpy(t + 32, p, 32); sig(s, m, n, t); }
static int VERIFY(const uint8_t *s, const uint8_t *m, size_t n, const uint8_t *p) { return crypto_sign_ed25519_verify_detached(s, m, n, p) == 0; }
#else
#include "crypto/ed25519/ed25519.h"
static uint8_t rnd[64]; static int rnds;
static void PUB(uint8_t *o, const uint8_t *k) { ed25519_publickey(k, o); }
static void SIGN(uint8_t *s, const uint8_t *m, size_t n, const uint8_t *k, const uint8_t *p) { ed25519_sign(m, n, k, p, s); }
static int VERIFY(const uint8_t *s, const uint8_t *m, size_t n, const uint8_t *p) { return ed25519_sign_open(m, n, p, s) == 0; }
#endif
void noise_rand_bytes(void *p, size_t n) { vf_assert(n <= 64, "key sized request"); vf_bytes(p, n, "rnd"); memcpy(rnd, p, n); rnds += (int)n; }
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static NoiseSignState *st[2]; static struct { int type; uint8_t priv[N], pub[N]; } m[2];  /* type 0 none, 1 public, 2 pair */
static uint8_t zero[64], a[N], b[N], x[N], y[N];
static void clear(int i) { m[i].type = 0; memset(m[i].priv, 0, N); memset(m[i].pub, 0, N); }
/* documented observations of object i */
static void observe(int i)
{
    int e; size_t w = vf_size("wrong"); vf_assume(w != N);
    vf_assert(noise_signstate_has_keypair(st[i]) == (m[i].type == 2), "has a key pair"); vf_assert(noise_signstate_has_public_key(st[i]) == (m[i].type != 0), "has a public key");
    memset(x, 0x55, N); memset(y, 0x55, N);
    e = noise_signstate_get_keypair(st[i], x, N, y, N);
    vf_assert(e == (m[i].type == 2 ? NOISE_ERROR_NONE : NOISE_ERROR_INVALID_STATE), "key pair available when there is one");
    if (m[i].type == 2) { vf_assert_eq(x, m[i].priv, N, "the private key that was set"); vf_assert_eq(y, m[i].pub, N, "the public key of the pair"); }
    else { vf_assert(vf_same(x, zero, N) || (x[0] == 0x55), "no private key handed out"); if (x[0] != 0x55) vf_assert_eq(x, zero, N, "nothing handed out"); }
    memset(y, 0x55, N);
    e = noise_signstate_get_public_key(st[i], y, N);
    if (m[i].type) { vf_assert(e == NOISE_ERROR_NONE, "public key available"); vf_assert_eq(y, m[i].pub, N, "the public key that was set"); }
    else vf_assert(e == NOISE_ERROR_INVALID_STATE, "no public key to hand out");
    vf_assert(noise_signstate_get_public_key(st[i], y, w) == NOISE_ERROR_INVALID_LENGTH, "wrong public length");
    vf_assert(noise_signstate_get_keypair(st[i], x, w, y, N) == NOISE_ERROR_INVALID_LENGTH, "wrong private length"); vf_assert(noise_signstate_get_keypair(st[i], x, N, y, w) == NOISE_ERROR_INVALID_LENGTH, "wrong public length");
    vf_assert(noise_signstate_get_public_key(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_signstate_get_keypair(st[i], 0, N, y, N) == NOISE_ERROR_INVALID_PARAM && noise_signstate_get_keypair(st[i], x, N, 0, N) == NOISE_ERROR_INVALID_PARAM, "null buffers");
}
static void calc(int i, int j)
{
    int e; size_t w = vf_size("wrong"); uint8_t sg[64], want[64], msg[L]; vf_assume(w != 64); vf_bytes(msg, L, "msg"); memset(sg, 0x55, 64);
    vf_assert(noise_signstate_sign(0, msg, L, sg, 64) == NOISE_ERROR_INVALID_PARAM && noise_signstate_sign(st[i], 0, L, sg, 64) == NOISE_ERROR_INVALID_PARAM && noise_signstate_sign(st[i], msg, L, 0, 64) == NOISE_ERROR_INVALID_PARAM, "null arguments");
    vf_assert(noise_signstate_sign(st[i], msg, L, sg, w) == NOISE_ERROR_INVALID_LENGTH, "wrong signature length");
    e = noise_signstate_sign(st[i], msg, L, sg, 64);
    if (m[i].type != 2) { vf_assert(e == NOISE_ERROR_INVALID_PRIVATE_KEY, "no private key"); memset(want, 0x55, 64); vf_assert_eq(sg, want, 64, "no signature"); vf_bytes(sg, 64, "sig"); vf_cover("no private"); }
    else { vf_assert(e == NOISE_ERROR_NONE, "signed"); SIGN(want, msg, L, m[i].priv, m[i].pub); vf_assert_eq(sg, want, 64, "the signature of the message"); vf_cover("signed"); if (choose(2)) vf_bytes(sg, 64, "sig"); }
    if (choose(2)) vf_bytes(msg, L, "othermsg");
    vf_assert(noise_signstate_verify(0, msg, L, sg, 64) == NOISE_ERROR_INVALID_PARAM && noise_signstate_verify(st[j], 0, L, sg, 64) == NOISE_ERROR_INVALID_PARAM && noise_signstate_verify(st[j], msg, L, 0, 64) == NOISE_ERROR_INVALID_PARAM, "null arguments");
    vf_assert(noise_signstate_verify(st[j], msg, L, sg, w) == NOISE_ERROR_INVALID_LENGTH, "wrong signature length");
    e = noise_signstate_verify(st[j], msg, L, sg, 64);
    if (m[j].type == 0) { vf_assert(e == NOISE_ERROR_INVALID_PUBLIC_KEY, "no public key"); vf_cover("no public"); return; }
    if (VERIFY(sg, msg, L, m[j].pub)) { vf_assert(e == NOISE_ERROR_NONE, "valid signature accepted"); vf_cover("valid"); }
    else { vf_assert(e == NOISE_ERROR_INVALID_SIGNATURE, "invalid signature refused"); vf_cover("invalid"); }
}
static void op(int i, int first)
{
    int e, k; size_t w;
    switch (first >= 0 ? first : choose(7)) {
    case 0:
        vf_assert(noise_signstate_generate_keypair(0) == NOISE_ERROR_INVALID_PARAM, "null");
        rnds = 0; e = noise_signstate_generate_keypair(st[i]);
        vf_assert(e == NOISE_ERROR_NONE && rnds >= N, "generated from enough randomness");
        vf_assert(noise_signstate_get_keypair(st[i], m[i].priv, N, m[i].pub, N) == NOISE_ERROR_NONE, "generated pair"); m[i].type = 2;
        vf_assert_eq(m[i].priv + 1, rnd + 1, N - 2, "private key is random"); vf_assert(((m[i].priv[0] ^ rnd[0]) & 0xf8) == 0 && ((m[i].priv[N - 1] ^ rnd[N - 1]) & (N == 32 ? 0x3f : 0x7f)) == 0, "private key is random at the ends");
        PUB(y, m[i].priv); vf_assert_eq(m[i].pub, y, N, "public key of the generated private key"); vf_cover("generate"); break;
    case 1: case 2:
        k = choose(6); vf_bytes(a, N, "priv"); if (k == 0) PUB(b, a); else vf_bytes(b, N, "pub"); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) e = noise_signstate_set_keypair(st[i], a, w, b, N); else if (k == 2) e = noise_signstate_set_keypair(st[i], a, N, b, w);
        else if (k == 3) e = noise_signstate_set_keypair(st[i], 0, N, b, N); else if (k == 4) e = noise_signstate_set_keypair(st[i], a, N, 0, N); else e = noise_signstate_set_keypair(st[i], a, N, b, N);
        if (k == 1 || k == 2) vf_assert(e == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 3 || k == 4) vf_assert(e == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { PUB(y, a);
            if (vf_same(b, y, N)) { vf_assert(e == NOISE_ERROR_NONE, "matching pair accepted"); m[i].type = 2; memcpy(m[i].priv, a, N); memcpy(m[i].pub, b, N); vf_cover("pair"); }
            else { vf_assert(e == NOISE_ERROR_INVALID_PUBLIC_KEY, "mismatched pair refused"); if (!noise_signstate_has_public_key(st[i])) clear(i); vf_cover("mismatch"); } }
        break;
    case 3:
        k = choose(3); vf_bytes(a, N, "priv"); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) vf_assert(noise_signstate_set_keypair_private(st[i], a, w) == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 2) vf_assert(noise_signstate_set_keypair_private(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_signstate_set_keypair_private(0, a, N) == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { vf_assert(noise_signstate_set_keypair_private(st[i], a, N) == NOISE_ERROR_NONE, "private key accepted"); m[i].type = 2; memcpy(m[i].priv, a, N); PUB(m[i].pub, a); vf_cover("private"); }
        break;
    case 4:
        k = choose(4); vf_bytes(b, N, "pub"); if (k == 3) memset(b, 0, N); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) vf_assert(noise_signstate_set_public_key(st[i], b, w) == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 2) vf_assert(noise_signstate_set_public_key(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_signstate_set_public_key(0, b, N) == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { vf_assert(noise_signstate_set_public_key(st[i], b, N) == NOISE_ERROR_NONE, "public key accepted"); clear(i); m[i].type = 1; memcpy(m[i].pub, b, N); vf_cover("public"); }
        break;
    case 5: vf_assert(noise_signstate_clear_key(st[i]) == NOISE_ERROR_NONE && noise_signstate_clear_key(0) == NOISE_ERROR_INVALID_PARAM, "cleared"); clear(i); vf_cover("clear"); break;
    case 6:
        if (choose(2)) { vf_assert(noise_signstate_copy(st[i], st[i]) == NOISE_ERROR_NONE && noise_signstate_copy(0, st[i]) == NOISE_ERROR_INVALID_PARAM && noise_signstate_copy(st[i], 0) == NOISE_ERROR_INVALID_PARAM, "self copy and nulls"); break; }
        vf_assert(noise_signstate_copy(st[i], st[!i]) == NOISE_ERROR_NONE, "copied"); m[i] = m[!i]; vf_cover("copy"); break;
    }
}
void harness(void)
{
    int k, i; NoiseSignState *d = (NoiseSignState *)1;
    for (i = 0; i < 2; ++i) {
        vf_assert((i ? noise_signstate_new_by_name(&st[i], "Ed25519") : noise_signstate_new_by_id(&st[i], ID)) == NOISE_ERROR_NONE && st[i], "created");
        vf_assert(noise_signstate_get_sign_id(st[i]) == ID && noise_signstate_get_public_key_length(st[i]) == N && noise_signstate_get_private_key_length(st[i]) == N && noise_signstate_get_signature_length(st[i]) == 64, "documented sizes");
    }
    vf_assert(noise_signstate_new_by_id(0, ID) == NOISE_ERROR_INVALID_PARAM && noise_signstate_new_by_name(0, "Ed25519") == NOISE_ERROR_INVALID_PARAM, "null"); { NoiseSignState *q = (NoiseSignState *)1; vf_assert(noise_signstate_new_by_name(&q, 0) == NOISE_ERROR_INVALID_PARAM && !q, "null name"); }
    { int id = vf_int("id"); vf_assume(id != ID); vf_assert(noise_signstate_new_by_id(&d, id) == NOISE_ERROR_UNKNOWN_ID && d == 0, "unknown id"); }
    d = (NoiseSignState *)1; vf_assert(noise_signstate_new_by_name(&d, "AESGCM") == NOISE_ERROR_UNKNOWN_NAME && d == 0, "unknown name");
    vf_assert(noise_signstate_get_sign_id(0) == 0 && noise_signstate_get_public_key_length(0) == 0 && noise_signstate_get_private_key_length(0) == 0 && noise_signstate_get_signature_length(0) == 0 && !noise_signstate_has_keypair(0) && !noise_signstate_has_public_key(0), "no object");
    for (k = 0; k < K; ++k) op(k == K - 1 ? 0 : choose(2), k ? -1 : FIRST);
    observe(0);
    k = choose(4);
    if (k == 0) calc(0, 1); else if (k == 1) calc(1, 0); else if (k == 2) calc(0, 0); else observe(1);
    vf_assert(noise_signstate_free(st[0]) == NOISE_ERROR_NONE && noise_signstate_free(st[1]) == NOISE_ERROR_NONE && noise_signstate_free(0) == NOISE_ERROR_INVALID_PARAM, "freed");
    vf_cover("end");
}
