/* Poly1305 (crypto/donna) against RFC 8439, section 2.5.  The accumulator is decided block by block, as an integer
 * identity modulo 2^130 - 5, from any state within the ranges that every block re-establishes. */
#include "vf.h"
#include "crypto/donna/poly1305-donna.c"
typedef poly1305_state_internal_t ST;
static const unsigned SH[3] = {0, 44, 88};
static const unsigned SM[2] = {0, 64};
static uint64_t le64(const uint8_t *p) { uint64_t v = 0; int i; for (i = 7; i >= 0; --i) v = (v << 8) | p[i]; return v; }
static void any_state(ST *st)
{
    memset(st, 0, sizeof(*st));
    st->r[0] = vf_bits("r0", 44); st->r[1] = vf_bits("r1", 44); st->r[2] = vf_bits("r2", 36);
    st->h[0] = vf_bits("h0", 44); st->h[1] = vf_bits("h1", 44) + vf_bits("h1c", 8); st->h[2] = vf_bits("h2", 42);
}
static int limbs(const uint64_t *x) { return vf_fe(x, SH, 3); }
static void ranges(const ST *st)
{
    vf_range(&st->h[0], ((uint64_t)1 << 44) - 1, "h0 within its range after a block");
    vf_range(&st->h[1], ((uint64_t)1 << 44) + 254, "h1 within its range after a block");
    vf_range(&st->h[2], ((uint64_t)1 << 42) - 1, "h2 within its range after a block");
}
static int block(int h, int r, const uint8_t *m, int hibit)
{
    uint64_t w[2]; int x;
    w[0] = le64(m); w[1] = le64(m + 8);
    x = vf_fadd(h, vf_fe(w, SM, 2));
    if (hibit) x = vf_fadd(x, vf_fpow2(128));
    return vf_fmul(x, r);
}
void harness(void)
{
    static ST S, S2; size_t i; (void)i;
    vf_fmod(1);
#if PART == 0       /* initialisation: clamp, zero accumulator, pad */
    uint8_t key[32]; uint64_t a, b;
    vf_bytes(&S, sizeof(S), "old"); vf_bytes(key, 32, "key");
    poly1305_init((poly1305_context *)&S, key);
    a = le64(key) & 0x0ffffffc0fffffffULL; b = le64(key + 8) & 0x0ffffffc0ffffffcULL;
    vf_assert((S.r[0] == (a & (((uint64_t)1 << 44) - 1))), "r0 is the low 44 bits of the clamped key");
    vf_assert(S.r[1] == (((a >> 44) | (b << 20)) & (((uint64_t)1 << 44) - 1)), "r1 is the middle 44 bits of the clamped key");
    vf_assert(S.r[2] == (b >> 24), "r2 is the high 36 bits of the clamped key");
    vf_assert(S.h[0] == 0 && S.h[1] == 0 && S.h[2] == 0 && S.leftover == 0 && S.final == 0, "nothing is accumulated yet");
    vf_assert(S.pad[0] == le64(key + 16) && S.pad[1] == le64(key + 24), "the second half of the key is the pad");
#elif PART == 1     /* one block, full or padded */
    uint8_t m[16]; int h, r;
    any_state(&S); vf_bytes(m, 16, "m");
    S.final = FINAL;
    h = limbs((uint64_t *)S.h); r = limbs((uint64_t *)S.r);
    h = block(h, r, m, !FINAL);
    poly1305_blocks(&S, m, 16);
    vf_fcheck(limbs((uint64_t *)S.h), h, "a block computes (h + m) r modulo 2^130 - 5");
    ranges(&S);
#elif PART == 2     /* a message given in pieces: every complete block is taken once, in order; the rest is kept */
    static const size_t L[] = { PIECES }; size_t np = sizeof(L) / sizeof(L[0]), n = 0, o = 0; uint8_t m[80]; int h, r;
    any_state(&S); S.leftover = 0;
    for (i = 0; i < np; ++i) n += L[i];
    vf_bytes(m, n, "m");
    h = limbs((uint64_t *)S.h); r = limbs((uint64_t *)S.r);
    for (i = 0; i < np; ++i) { poly1305_update((poly1305_context *)&S, m + o, L[i]); o += L[i]; }
    for (o = 0; o + 16 <= n; o += 16) h = block(h, r, m + o, 1);
    vf_fcheck(limbs((uint64_t *)S.h), h, "the accumulator holds the complete blocks given so far");
    ranges(&S);
    vf_assert(S.leftover == n - o, "the bytes of the last incomplete block are counted");
    vf_assert_eq(S.buffer, m + o, n - o, "the bytes of the last incomplete block are kept");
    vf_assert(S.final == 0, "not final yet");
#elif PART == 3     /* the tag from the accumulator */
    uint8_t tag[16], ref[16]; unsigned __int128 A, L, L2, T; unsigned top, q, t2;
    any_state(&S); S.pad[0] = vf_u64("pad0"); S.pad[1] = vf_u64("pad1");
    A = S.h[0] + ((unsigned __int128)S.h[1] << 44); L = A + ((unsigned __int128)S.h[2] << 88);
    top = (unsigned)(S.h[2] >> 40) + (L < A);
    q = top >> 2; L2 = L + 5 * q; t2 = (top & 3) + (L2 < L);
    T = L2 + ((t2 >= 4 || (t2 == 3 && L2 >= (unsigned __int128)0 - 5)) ? 5 : 0);
    T += ((unsigned __int128)S.pad[1] << 64) | S.pad[0];
    for (i = 0; i < 16; ++i) ref[i] = (uint8_t)(T >> (8 * i));
    poly1305_finish((poly1305_context *)&S, tag);
    vf_assert_eq(tag, ref, 16, "the tag is (h mod 2^130 - 5) + s modulo 2^128");
#elif PART == 4     /* an incomplete last block is padded with a one and zeros and taken without the 2^128 bit */
    uint8_t t1[16], t2[16], pad[16];
    any_state(&S); S.pad[0] = vf_u64("pad0"); S.pad[1] = vf_u64("pad1"); S.leftover = LEFT;
    vf_bytes(S.buffer, 16, "buffer"); S2 = S;
    memset(pad, 0, 16); memcpy(pad, S.buffer, LEFT); pad[LEFT] = 1;
    poly1305_finish((poly1305_context *)&S, t1);
    S2.final = 1; poly1305_blocks(&S2, pad, 16); S2.leftover = 0;
    poly1305_finish((poly1305_context *)&S2, t2);
    vf_assert_eq(t1, t2, 16, "an incomplete last block is followed by one and zeros");
#elif PART == 5     /* poly1305_auth is init, update, finish */
    uint8_t key[32], m[40], t1[16], t2[16];
    vf_bytes(key, 32, "key"); vf_bytes(m, LEFT, "m");
    poly1305_auth(t1, m, LEFT, key);
    poly1305_init((poly1305_context *)&S, key); poly1305_update((poly1305_context *)&S, m, LEFT); poly1305_finish((poly1305_context *)&S, t2);
    vf_assert_eq(t1, t2, 16, "the one-shot function is the three others");
#endif
    vf_cover("end");
}
