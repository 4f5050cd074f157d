/* The shared-secret function of crypto/donna/curve25519-donna-c64.c against RFC 7748.  In every part the same code runs
 * natively, so that a counterexample can be replayed; under the executor some functions are replaced by an ideal one whose
 * contract another part decides (job key "ideal"). */
#include "vf.h"
#if PART == 5
#include "protocol/internal.h"
#include "crypto/ed25519/ed25519.h"
#endif
#define always_inline noinline
#if PART == 5
#include "backend/ref/dh-curve25519.c"
void curved25519_scalarmult_basepoint(curved25519_key pk, const curved25519_key e) { (void)pk; (void)e; abort(); }
void noise_rand_bytes(void *p, size_t n) { (void)p; (void)n; abort(); }
#else
#include "crypto/donna/curve25519-donna-c64.c"
#endif
#undef always_inline
static const unsigned SH[5] = {0, 51, 102, 153, 204};
static const unsigned SW[4] = {0, 64, 128, 192};
#define SHORT (((uint64_t)1 << 51) + ((uint64_t)1 << 14))     /* what the products leave in a limb, at most */
#define WIDE (((uint64_t)1 << 54) + SHORT)        /* what a product takes in a limb, at most */
static int val(const limb *a) { return vf_fe(a, SH, 5); }
static void any(limb *a, uint64_t max, int element) { int i; for (i = 0; i < 5; ++i) a[i] = vf_upto("limb", max); if (element) vf_fdef(a, SH, 5, 0); }
static void within(const limb *a, uint64_t max, const char *w) { int i; for (i = 0; i < 5; ++i) vf_range(&a[i], max, w); }
#if VF_SE
#define IDEAL static void __attribute__((used))
IDEAL ideal_fmul(limb *o, const limb *a, const limb *b)
{
    int h; within(a, WIDE, "first factor within its range"); within(b, WIDE, "second factor within its range");
    h = vf_fmul(val(a), val(b)); { int i; for (i = 0; i < 5; ++i) o[i] = vf_upto("prod", SHORT); } vf_fdef(o, SH, 5, h);
}
IDEAL ideal_fsquare_times(limb *o, const limb *a, limb n)
{
    int h = val(a); within(a, WIDE, "the number to be squared within its range"); vf_assert(n != 0, "at least one squaring");
    while (n--) h = vf_fmul(h, h);
    { int i; for (i = 0; i < 5; ++i) o[i] = vf_upto("prod", SHORT); } vf_fdef(o, SH, 5, h);
}
IDEAL ideal_fmonty(limb *x2, limb *z2, limb *x3, limb *z3, limb *x, limb *z, limb *xp, limb *zp, const limb *q)
{
    uint8_t b[200], o[160];
    memcpy(b, x, 40); memcpy(b + 40, z, 40); memcpy(b + 80, xp, 40); memcpy(b + 120, zp, 40); memcpy(b + 160, q, 40);
    vf_uf("step", o, 160, b, 200);
    vf_uf("junk1", x, 40, b, 200); vf_uf("junk2", z, 40, b, 200); vf_uf("junk3", xp, 40, b, 200); vf_uf("junk4", zp, 40, b, 200);
    memcpy(x2, o, 40); memcpy(z2, o + 40, 40); memcpy(x3, o + 80, 40); memcpy(z3, o + 120, 40);
}
IDEAL ideal_cmult(limb *x, limb *z, const u8 *n, const limb *q)
{ uint8_t b[72], o[80]; memcpy(b, n, 32); memcpy(b + 32, q, 40); vf_uf("ladder", o, 80, b, 72); memcpy(x, o, 40); memcpy(z, o + 40, 40); }
IDEAL ideal_crecip(limb *o, const limb *a) { vf_uf("recip", o, 40, a, 40); }
IDEAL ideal_fmul_uf(limb *o, const limb *a, const limb *b) { uint8_t t[80]; memcpy(t, a, 40); memcpy(t + 40, b, 40); vf_uf("product", o, 40, t, 80); }
IDEAL ideal_fcontract(u8 *o, const limb *a) { vf_uf("contract", o, 32, a, 40); }
#endif
static uint64_t le64(const uint8_t *p) { uint64_t v = 0; int i; for (i = 7; i >= 0; --i) v = (v << 8) | p[i]; return v; }
void harness(void)
{
    vf_fmod(2);
#if PART == 0       /* product */
    limb a[5], b[5], o[5]; int h;
    any(a, WIDE, 0); any(b, WIDE, 0); h = vf_fmul(val(a), val(b));
    fmul(o, a, b);
    vf_fcheck(val(o), h, "the product modulo 2^255 - 19"); within(o, SHORT, "a product within its range");
#elif PART == 1     /* squares */
    limb a[5], o[5]; int h; limb i;
    any(a, COUNT == 1 ? WIDE : SHORT, 0); h = val(a); for (i = 0; i < COUNT; ++i) h = vf_fmul(h, h);
    fsquare_times(o, a, COUNT);
    vf_fcheck(val(o), h, "the repeated square modulo 2^255 - 19"); within(o, SHORT, "a square within its range");
#elif PART == 2     /* one step of the ladder */
    limb x[5], z[5], xp[5], zp[5], q[5], x2[5], z2[5], x3[5], z3[5]; int X, Z, XP, ZP, Q, A, B, AA, BB, E, C, D, DA, CB, t;
    any(x, SHORT, 1); any(z, SHORT, 1); any(xp, SHORT, 1); any(zp, SHORT, 1); any(q, SHORT, 1);
    X = val(x); Z = val(z); XP = val(xp); ZP = val(zp); Q = val(q);
    fmonty(x2, z2, x3, z3, x, z, xp, zp, q);
    A = vf_fadd(X, Z); AA = vf_fmul(A, A); B = vf_fsub(X, Z); BB = vf_fmul(B, B); E = vf_fsub(AA, BB);
    C = vf_fadd(XP, ZP); D = vf_fsub(XP, ZP); DA = vf_fmul(D, A); CB = vf_fmul(C, B);
    t = vf_fadd(DA, CB);
    vf_fcheck(val(x3), vf_fmul(t, t), "x3 = (DA + CB)^2");
    t = vf_fsub(DA, CB);
    vf_fcheck(val(z3), vf_fmul(Q, vf_fmul(t, t)), "z3 = x1 (DA - CB)^2");
    vf_fcheck(val(x2), vf_fmul(AA, BB), "x2 = AA BB");
    vf_fcheck(val(z2), vf_fmul(E, vf_fadd(AA, vf_fmul(vf_fsmall(121665), E))), "z2 = E (AA + a24 E)");
    within(x2, SHORT, "x2 within its range"); within(z2, SHORT, "z2 within its range"); within(x3, SHORT, "x3 within its range"); within(z3, SHORT, "z3 within its range");
#elif PART == 3     /* inversion */
    limb z[5], o[5]; int h, r, i;
    any(z, SHORT, 1); h = val(z);
    crecip(o, z);
    r = h;          /* exponent 2^255 - 21: 250 ones, then 01011 */
    for (i = 253; i >= 0; --i) { r = vf_fmul(r, r); if (i > 4 || i == 3 || i == 1 || i == 0) r = vf_fmul(r, h); }
    vf_fcheck(val(o), r, "the inverse is the power 2^255 - 21"); within(o, SHORT, "the inverse within its range");
#elif PART == 4     /* the ladder: which step is taken on which operands for every scalar bit */
    uint8_t n[32]; limb q[5], rx[5], rz[5]; limb v[4][5], w[4][5]; int i, k; (void)i;
    vf_bytes(n, 32, "scalar"); for (i = 0; i < 5; ++i) q[i] = vf_upto("limb", ((uint64_t)1 << 51) - 1);
    cmult(rx, rz, n, q);
    memset(v, 0, sizeof(v)); v[0][0] = 1; memcpy(v[2], q, 40); v[3][0] = 1;         /* (1 : 0) and (q : 1) */
    for (i = 255; i >= 0; --i) {
        limb m = 0 - (limb)((n[i >> 3] >> (i & 7)) & 1);
        limb t[4][5];
        for (k = 0; k < 10; ++k) { limb a = v[k / 5][k % 5], b = v[2 + k / 5][k % 5], d = (a ^ b) & m; v[k / 5][k % 5] = a ^ d; v[2 + k / 5][k % 5] = b ^ d; }
        fmonty(w[0], w[1], w[2], w[3], v[0], v[1], v[2], v[3], q); memcpy(t, w, sizeof(t));
        for (k = 0; k < 10; ++k) { limb a = t[k / 5][k % 5], b = t[2 + k / 5][k % 5], d = (a ^ b) & m; v[k / 5][k % 5] = a ^ d; v[2 + k / 5][k % 5] = b ^ d; }
    }
    vf_assert_eq(rx, v[0], 40, "x of the ladder of RFC 7748"); vf_assert_eq(rz, v[1], 40, "z of the ladder of RFC 7748");
#elif PART == 5     /* the whole: clamp, expand, ladder, divide, encode */
    uint8_t s[32], u[32], out[32], ref[32], e[32], s0[32], u0[32]; limb q[5], x[5], z[5], zi[5], r[5]; const uint64_t M = ((uint64_t)1 << 51) - 1; int i;
    vf_bytes(s, 32, "scalar"); vf_bytes(u, 32, "point"); memcpy(s0, s, 32); memcpy(u0, u, 32);
    vf_assert(curve25519_donna(out, s, u) == 0, "always succeeds");
    for (i = 0; i < 32; ++i) e[i] = s0[i];
    e[0] &= 0xf8; e[31] = (e[31] & 0x3f) | 0x40;
    { uint64_t a = le64(u0), b = le64(u0 + 8), c = le64(u0 + 16), d = le64(u0 + 24);
      q[0] = a & M; q[1] = ((a >> 51) | (b << 13)) & M; q[2] = ((b >> 38) | (c << 26)) & M; q[3] = ((c >> 25) | (d << 39)) & M; q[4] = (d >> 12) & M; }
    cmult(x, z, e, q); crecip(zi, z); fmul(r, x, zi); fcontract(ref, r);
    vf_assert_eq(out, ref, 32, "encode(x / z) of the ladder on the clamped scalar and the masked point");
    { NoiseDHState *a = noise_curve25519_new(), *b = noise_curve25519_new();
      vf_assert(a && b, "objects"); vf_assert(a->private_key_len == 32 && b->public_key_len == 32 && a->shared_key_len == 32, "sizes");
      memcpy(a->private_key, s0, 32); vf_bytes(a->public_key, 32, "mine"); vf_bytes(b->private_key, 32, "theirs"); memcpy(b->public_key, u0, 32); memset(out, 0, 32);
      vf_assert(a->calculate(a, b, out) == NOISE_ERROR_NONE, "every public value is accepted");
      vf_assert_eq(out, ref, 32, "the object's shared key is X25519 of its private key and the other's public key");
      free(a); free(b); }
    vf_assert_eq(s, s0, 32, "the private key is not changed"); vf_assert_eq(u, u0, 32, "the public key is not changed");
#elif PART == 6     /* encoding: the number V <= 2^255 + 2^205 given, or V - (2^255 - 19) */
    limb a[5]; uint8_t out[32]; uint64_t w[4], v[4], u[4]; unsigned __int128 c; int i;
    for (i = 0; i < 5; ++i) { a[i] = vf_u64("limb"); vf_assume(a[i] <= SHORT); }
    c = a[0] + ((unsigned __int128)a[1] << 51); v[0] = (uint64_t)c;
    c = (c >> 64) + ((unsigned __int128)a[2] << 38); v[1] = (uint64_t)c;
    c = (c >> 64) + ((unsigned __int128)a[3] << 25); v[2] = (uint64_t)c;
    c = (c >> 64) + ((unsigned __int128)a[4] << 12); v[3] = (uint64_t)c;
    for (i = 0, c = 19; i < 4; ++i) { c += v[i]; u[i] = (uint64_t)c; c >>= 64; }
    u[3] -= (uint64_t)1 << 63;
    fcontract(out, a);
    for (i = 0; i < 4; ++i) w[i] = le64(out + 8 * i);
    vf_assert(((w[0] == v[0]) & (w[1] == v[1]) & (w[2] == v[2]) & (w[3] == v[3])) | ((w[0] == u[0]) & (w[1] == u[1]) & (w[2] == u[2]) & (w[3] == u[3])),
              "the encoding is the number modulo 2^255 - 19");
#elif PART == 7     /* encoding: the only one below 2^255 - 19 */
    limb a[5]; uint8_t out[32]; uint64_t w[4]; int i;
    for (i = 0; i < 5; ++i) { a[i] = vf_u64("limb"); vf_assume(a[i] <= SHORT); }
    fcontract(out, a);
    for (i = 0; i < 4; ++i) w[i] = le64(out + 8 * i);
    vf_assert(w[3] < ((uint64_t)1 << 63), "below 2^255");
    vf_assert(!((w[3] == (((uint64_t)1 << 63) - 1)) & (w[2] == ~(uint64_t)0) & (w[1] == ~(uint64_t)0) & (w[0] >= (uint64_t)0 - 19)), "below 2^255 - 19");
#endif
    vf_cover("end");
}
