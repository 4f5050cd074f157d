/* D01: DHState objects over histories of calls.  The curve functions are ideal (D02, D03); the expectation calls the same
 * functions, so a native replay is consistent.  -DALG=1 (25519) 2 (448), -DK operations, -DSODIUM */
#include <noise/protocol.h>
#include "protocol/internal.h"
#include "vf.h"
#if ALG == 1
#define N 32
#define ID NOISE_DH_CURVE25519
int curve25519_donna(uint8_t *mypublic, const uint8_t *secret, const uint8_t *basepoint);
#if SODIUM
int crypto_scalarmult_curve25519_base(unsigned char *q, const unsigned char *n) { vf_pub(q, n, 32, 1); return 0; }
int crypto_scalarmult_curve25519(unsigned char *q, const unsigned char *n, const unsigned char *p) { vf_dh(q, n, p, 32, 1); return 0; }
static void PUB(uint8_t *o, const uint8_t *k) { crypto_scalarmult_curve25519_base(o, k); }
#else
static void PUB(uint8_t *o, const uint8_t *k) { vf_pub(o, k, 32, 1); }
#endif
static int DH(uint8_t *o, const uint8_t *k, const uint8_t *p) { curve25519_donna(o, k, p); return 1; }
#else
#define N 56
#define ID NOISE_DH_CURVE448
int curve448_eval(unsigned char *mypublic, const unsigned char *secret, const unsigned char *basepoint);
static void PUB(uint8_t *o, const uint8_t *k) { static const uint8_t b[56] = {5}; curve448_eval(o, k, b); }
static int DH(uint8_t *o, const uint8_t *k, const uint8_t *p) { return curve448_eval(o, k, p); }
#endif
static uint8_t rnd[64]; static int rnds;
void noise_rand_bytes(void *p, size_t n) { vf_assert(n <= 64, "key sized request"); vf_bytes(p, n, "rnd"); memcpy(rnd, p, n); rnds += (int)n; }
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static NoiseDHState *st[2]; static struct { int type; uint8_t priv[N], pub[N]; } m[2];  /* type 0 none, 1 public, 2 pair */
static uint8_t zero[64], a[N], b[N], x[N], y[N];
static int isz(const uint8_t *p) { return vf_same(p, zero, N); }
static void clear(int i) { m[i].type = 0; memset(m[i].priv, 0, N); memset(m[i].pub, 0, N); }
/* documented observations of object i */
static void observe(int i)
{
    int e; size_t w = vf_size("wrong"); vf_assume(w != N);
    vf_assert(noise_dhstate_has_keypair(st[i]) == (m[i].type == 2), "has a key pair"); vf_assert(noise_dhstate_has_public_key(st[i]) == (m[i].type != 0), "has a public key");
    vf_assert(noise_dhstate_is_null_public_key(st[i]) == (m[i].type ? isz(m[i].pub) : 0), "null key reported");
    memset(x, 0x55, N); memset(y, 0x55, N);
    e = noise_dhstate_get_keypair(st[i], x, N, y, N);
    vf_assert(e == (m[i].type == 2 ? NOISE_ERROR_NONE : NOISE_ERROR_INVALID_STATE), "key pair available when there is one");
    if (m[i].type == 2) { vf_assert_eq(x, m[i].priv, N, "the private key that was set"); vf_assert_eq(y, m[i].pub, N, "the public key of the pair"); }
    else { vf_assert(vf_same(x, zero, N) || (x[0] == 0x55), "no private key handed out"); if (x[0] != 0x55) vf_assert_eq(x, zero, N, "nothing handed out"); }
    memset(y, 0x55, N);
    e = noise_dhstate_get_public_key(st[i], y, N);
    if (m[i].type) { vf_assert(e == NOISE_ERROR_NONE, "public key available"); vf_assert_eq(y, m[i].pub, N, "the public key that was set"); }
    else if (e == NOISE_ERROR_NONE) vf_assert_eq(y, zero, N, "no key left");
    vf_assert(noise_dhstate_get_public_key(st[i], y, w) == NOISE_ERROR_INVALID_LENGTH, "wrong public length");
    vf_assert(noise_dhstate_get_keypair(st[i], x, w, y, N) == NOISE_ERROR_INVALID_LENGTH, "wrong private length"); vf_assert(noise_dhstate_get_keypair(st[i], x, N, y, w) == NOISE_ERROR_INVALID_LENGTH, "wrong public length");
    vf_assert(noise_dhstate_get_public_key(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_get_keypair(st[i], 0, N, y, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_get_keypair(st[i], x, N, 0, N) == NOISE_ERROR_INVALID_PARAM, "null buffers");
}
static void calc(int i, int j)
{
    int e, ok; size_t w = vf_size("wrong"); vf_assume(w != N); memset(x, 0x55, N);
    vf_assert(noise_dhstate_calculate(0, st[j], x, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_calculate(st[i], 0, x, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_calculate(st[i], st[j], 0, N) == NOISE_ERROR_INVALID_PARAM, "null arguments");
    vf_assert(noise_dhstate_calculate(st[i], st[j], x, w) == NOISE_ERROR_INVALID_LENGTH, "wrong shared length");
    e = noise_dhstate_calculate(st[i], st[j], x, N);
    if (m[i].type != 2) { vf_assert(e == NOISE_ERROR_INVALID_PRIVATE_KEY, "no private key"); vf_cover("no private"); return; }
    if (m[j].type == 0) { vf_assert(e == NOISE_ERROR_INVALID_PUBLIC_KEY || isz(x), "no public key: nothing but the null secret"); return; }
    ok = DH(y, m[i].priv, m[j].pub);
    if (isz(m[j].pub)) { vf_assert(e == NOISE_ERROR_NONE, "null key accepted"); vf_assert_eq(x, zero, N, "null public key gives the null secret"); vf_cover("null secret"); }
    else if (ok) { vf_assert(e == NOISE_ERROR_NONE, "calculated"); vf_assert_eq(x, y, N, "the shared secret"); vf_cover("secret"); }
    else { vf_assert(e == NOISE_ERROR_INVALID_PUBLIC_KEY, "invalid public key reported"); vf_cover("invalid point"); }
}
static void op(int i, int first)
{
    int e, k; size_t w;
    switch (first >= 0 ? first : choose(8)) {
    case 0:
        vf_assert(noise_dhstate_generate_keypair(0) == NOISE_ERROR_INVALID_PARAM, "null");
        rnds = 0; e = choose(2) ? noise_dhstate_generate_keypair(st[i]) : noise_dhstate_generate_dependent_keypair(st[i], st[!i]);
        vf_assert(e == NOISE_ERROR_NONE && rnds >= N, "generated from enough randomness");
        vf_assert(noise_dhstate_get_keypair(st[i], m[i].priv, N, m[i].pub, N) == NOISE_ERROR_NONE, "generated pair"); m[i].type = 2;
        vf_assert_eq(m[i].priv + 1, rnd + 1, N - 2, "private key is random"); vf_assert(((m[i].priv[0] ^ rnd[0]) & 0xf8) == 0 && ((m[i].priv[N - 1] ^ rnd[N - 1]) & (N == 32 ? 0x3f : 0x7f)) == 0, "private key is random at the ends");
        PUB(y, m[i].priv); vf_assert_eq(m[i].pub, y, N, "public key of the generated private key"); vf_cover("generate"); break;
    case 1: case 2:
        k = choose(6); vf_bytes(a, N, "priv"); if (k == 0) PUB(b, a); else vf_bytes(b, N, "pub"); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) e = noise_dhstate_set_keypair(st[i], a, w, b, N); else if (k == 2) e = noise_dhstate_set_keypair(st[i], a, N, b, w);
        else if (k == 3) e = noise_dhstate_set_keypair(st[i], 0, N, b, N); else if (k == 4) e = noise_dhstate_set_keypair(st[i], a, N, 0, N); else e = noise_dhstate_set_keypair(st[i], a, N, b, N);
        if (k == 1 || k == 2) vf_assert(e == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 3 || k == 4) vf_assert(e == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { PUB(y, a);
            if (vf_same(b, y, N)) { vf_assert(e == NOISE_ERROR_NONE, "matching pair accepted"); m[i].type = 2; memcpy(m[i].priv, a, N); memcpy(m[i].pub, b, N); vf_cover("pair"); }
            else { vf_assert(e == NOISE_ERROR_INVALID_PUBLIC_KEY, "mismatched pair refused"); if (!noise_dhstate_has_public_key(st[i])) clear(i); vf_cover("mismatch"); } }
        break;
    case 3:
        k = choose(3); vf_bytes(a, N, "priv"); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) vf_assert(noise_dhstate_set_keypair_private(st[i], a, w) == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 2) vf_assert(noise_dhstate_set_keypair_private(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_set_keypair_private(0, a, N) == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { vf_assert(noise_dhstate_set_keypair_private(st[i], a, N) == NOISE_ERROR_NONE, "private key accepted"); m[i].type = 2; memcpy(m[i].priv, a, N); PUB(m[i].pub, a); vf_cover("private"); }
        break;
    case 4:
        k = choose(4); vf_bytes(b, N, "pub"); if (k == 3) memset(b, 0, N); w = vf_size("wrong"); vf_assume(w != N);
        if (k == 1) vf_assert(noise_dhstate_set_public_key(st[i], b, w) == NOISE_ERROR_INVALID_LENGTH, "wrong length refused");
        else if (k == 2) vf_assert(noise_dhstate_set_public_key(st[i], 0, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_set_public_key(0, b, N) == NOISE_ERROR_INVALID_PARAM, "null refused");
        else { vf_assert(noise_dhstate_set_public_key(st[i], b, N) == NOISE_ERROR_NONE, "public key accepted"); clear(i); m[i].type = 1; memcpy(m[i].pub, b, N); vf_cover("public"); }
        break;
    case 5: vf_assert(noise_dhstate_set_null_public_key(st[i]) == NOISE_ERROR_NONE && noise_dhstate_set_null_public_key(0) == NOISE_ERROR_INVALID_PARAM, "null key set"); clear(i); m[i].type = 1; vf_cover("null"); break;
    case 6: vf_assert(noise_dhstate_clear_key(st[i]) == NOISE_ERROR_NONE && noise_dhstate_clear_key(0) == NOISE_ERROR_INVALID_PARAM, "cleared"); clear(i); vf_cover("clear"); break;
    case 7: {
        NoiseDHState *o = 0; int other = ID == NOISE_DH_CURVE448 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448;
        k = choose(3);
        if (k == 1) { vf_assert(noise_dhstate_copy(st[i], st[i]) == NOISE_ERROR_NONE && noise_dhstate_copy(0, st[i]) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_copy(st[i], 0) == NOISE_ERROR_INVALID_PARAM, "self copy and nulls"); break; }
        if (k == 2) {
            vf_assert(noise_dhstate_new_by_id(&o, other) == NOISE_ERROR_NONE, "other algorithm");
            vf_assert(noise_dhstate_copy(st[i], o) == NOISE_ERROR_NOT_APPLICABLE, "copy from another algorithm refused"); memset(x, 0x55, N);
            vf_assert(noise_dhstate_calculate(st[i], o, x, N) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_generate_dependent_keypair(st[i], o) == NOISE_ERROR_INVALID_PARAM, "mixed algorithms refused"); noise_dhstate_free(o); vf_cover("mixed"); break; }
        vf_assert(noise_dhstate_copy(st[i], st[!i]) == NOISE_ERROR_NONE, "copied"); m[i] = m[!i]; vf_cover("copy"); break; }
    }
}
void harness(void)
{
    int k, i; NoiseDHState *d = (NoiseDHState *)1;
    for (i = 0; i < 2; ++i) {
        vf_assert((i ? noise_dhstate_new_by_name(&st[i], N == 32 ? "25519" : "448") : noise_dhstate_new_by_id(&st[i], ID)) == NOISE_ERROR_NONE && st[i], "created");
        vf_assert(noise_dhstate_get_dh_id(st[i]) == ID && noise_dhstate_get_public_key_length(st[i]) == N && noise_dhstate_get_private_key_length(st[i]) == N && noise_dhstate_get_shared_key_length(st[i]) == N && !noise_dhstate_is_ephemeral_only(st[i]), "documented sizes");
    }
    vf_assert(noise_dhstate_new_by_id(0, ID) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_new_by_name(0, "448") == NOISE_ERROR_INVALID_PARAM, "null"); { NoiseDHState *q = (NoiseDHState *)1; vf_assert(noise_dhstate_new_by_name(&q, 0) == NOISE_ERROR_INVALID_PARAM && !q, "null name"); }
    { int id = vf_int("id"); vf_assume(id != NOISE_DH_CURVE25519 && id != NOISE_DH_CURVE448 && id != NOISE_DH_NEWHOPE); vf_assert(noise_dhstate_new_by_id(&d, id) == NOISE_ERROR_UNKNOWN_ID && d == 0, "unknown id"); }
    d = (NoiseDHState *)1; vf_assert(noise_dhstate_new_by_name(&d, "AESGCM") == NOISE_ERROR_UNKNOWN_NAME && d == 0, "unknown name");
    vf_assert(noise_dhstate_get_dh_id(0) == NOISE_DH_NONE && noise_dhstate_get_public_key_length(0) == 0 && noise_dhstate_get_private_key_length(0) == 0 && noise_dhstate_get_shared_key_length(0) == 0 && !noise_dhstate_has_keypair(0) && !noise_dhstate_has_public_key(0) && !noise_dhstate_is_null_public_key(0), "no object");
    for (k = 0; k < K; ++k) op(k == K - 1 ? 0 : choose(2), k ? -1 : FIRST);
    observe(0);
    k = choose(4);
    if (k == 0) calc(0, 1); else if (k == 1) calc(1, 0); else if (k == 2) calc(0, 0); else observe(1);
    vf_assert(noise_dhstate_free(st[0]) == NOISE_ERROR_NONE && noise_dhstate_free(st[1]) == NOISE_ERROR_NONE && noise_dhstate_free(0) == NOISE_ERROR_INVALID_PARAM, "freed");
    vf_cover("end");
}
