/* RFC 8439 ChaCha20, FIPS 197 AES-256 and NIST SP 800-38D GHASH, written from the standards. */
#ifndef SPEC_AEAD_H
#define SPEC_AEAD_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static uint32_t sp_le32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void sp_qr(uint32_t *s, int a, int b, int c, int d)
{
#define SP_R(x, n) ((x) << (n) | (x) >> (32 - (n)))
    s[a] += s[b]; s[d] ^= s[a]; s[d] = SP_R(s[d], 16);
    s[c] += s[d]; s[b] ^= s[c]; s[b] = SP_R(s[b], 12);
    s[a] += s[b]; s[d] ^= s[a]; s[d] = SP_R(s[d], 8);
    s[c] += s[d]; s[b] ^= s[c]; s[b] = SP_R(s[b], 7);
}
/* one keystream block; the words 12..15 of the state are given */
static void sp_chacha_words(uint8_t out[64], const uint8_t key[32], const uint32_t tail[4])
{
    static const uint32_t c[4] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    uint32_t s[16], t[16]; int i;
    for (i = 0; i < 4; ++i) { s[i] = c[i]; s[12 + i] = tail[i]; }
    for (i = 0; i < 8; ++i) s[4 + i] = sp_le32(key + 4 * i);
    memcpy(t, s, sizeof(s));
    for (i = 0; i < 10; ++i) {
        sp_qr(t, 0, 4, 8, 12); sp_qr(t, 1, 5, 9, 13); sp_qr(t, 2, 6, 10, 14); sp_qr(t, 3, 7, 11, 15);
        sp_qr(t, 0, 5, 10, 15); sp_qr(t, 1, 6, 11, 12); sp_qr(t, 2, 7, 8, 13); sp_qr(t, 3, 4, 9, 14);
    }
    for (i = 0; i < 16; ++i) { uint32_t v = t[i] + s[i]; out[4 * i] = (uint8_t)v; out[4 * i + 1] = (uint8_t)(v >> 8); out[4 * i + 2] = (uint8_t)(v >> 16); out[4 * i + 3] = (uint8_t)(v >> 24); }
}
static void sp_chacha_block(uint8_t out[64], const uint8_t key[32], uint32_t ctr, const uint8_t nonce[12])
{
    uint32_t t[4]; int i;
    t[0] = ctr; for (i = 0; i < 3; ++i) t[1 + i] = sp_le32(nonce + 4 * i);
    sp_chacha_words(out, key, t);
}
static void sp_chacha_xor(uint8_t *out, const uint8_t *in, size_t n, const uint8_t key[32], uint32_t ctr, const uint8_t nonce[12])
{
    uint8_t b[64]; size_t i;
    for (i = 0; i < n; ++i) { if (i % 64 == 0) sp_chacha_block(b, key, ctr + (uint32_t)(i / 64), nonce); out[i] = in[i] ^ b[i % 64]; }
}
/* ---- AES-256.  The tables are computed from the definition in FIPS 197. */
static uint8_t sp_S[256], sp_S2[256], sp_S3[256]; static int sp_aes_ready;
static uint8_t sp_gf(uint8_t a, uint8_t b) { uint8_t r = 0; int i; for (i = 0; i < 8; ++i) { if (b >> i & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a >> 7 ? 0x1b : 0)); } return r; }
static void sp_aes_tables(void)
{
    uint8_t p = 1, q = 1; int i;
    if (sp_aes_ready) return;
    do {    /* p runs over the powers of 3, q over those of 1/3 */
        p = (uint8_t)(p ^ (p << 1) ^ (p & 0x80 ? 0x1b : 0));
        q ^= (uint8_t)(q << 1); q ^= (uint8_t)(q << 2); q ^= (uint8_t)(q << 4); if (q & 0x80) q ^= 9;
        uint8_t x = q; 
        sp_S[p] = (uint8_t)(x ^ (x << 1 | x >> 7) ^ (x << 2 | x >> 6) ^ (x << 3 | x >> 5) ^ (x << 4 | x >> 4) ^ 0x63);
    } while (p != 1);
    sp_S[0] = 0x63;
    for (i = 0; i < 256; ++i) { sp_S2[i] = (uint8_t)(sp_S[i] << 1 ^ (sp_S[i] >> 7 ? 0x1b : 0)); sp_S3[i] = sp_S2[i] ^ sp_S[i]; }
    sp_aes_ready = 1;
}
static void sp_aes256_expand(uint8_t w[240], const uint8_t key[32])
{
    uint8_t rc = 1; int i, j;
    sp_aes_tables(); memcpy(w, key, 32);
    for (i = 8; i < 60; ++i) {
        uint8_t t[4]; memcpy(t, w + 4 * (i - 1), 4);
        if (i % 8 == 0) { uint8_t x = t[0]; t[0] = sp_S[t[1]] ^ rc; t[1] = sp_S[t[2]]; t[2] = sp_S[t[3]]; t[3] = sp_S[x]; rc = (uint8_t)(rc << 1); }
        else if (i % 8 == 4) for (j = 0; j < 4; ++j) t[j] = sp_S[t[j]];
        for (j = 0; j < 4; ++j) w[4 * i + j] = w[4 * (i - 8) + j] ^ t[j];
    }
}
static void sp_aes256_block(uint8_t out[16], const uint8_t w[240], const uint8_t in[16])
{
    uint8_t s[16], t[16]; int r, c, i;
    for (i = 0; i < 16; ++i) s[i] = in[i] ^ w[i];
    for (r = 1; r <= 14; ++r) {
        for (c = 0; c < 4; ++c) {
            uint8_t a = s[4 * c], b = s[(4 * c + 5) % 16], d = s[(4 * c + 10) % 16], e = s[(4 * c + 15) % 16];     /* ShiftRows */
            if (r < 14) {
                t[4 * c] = sp_S2[a] ^ sp_S3[b] ^ sp_S[d] ^ sp_S[e]; t[4 * c + 1] = sp_S[a] ^ sp_S2[b] ^ sp_S3[d] ^ sp_S[e];
                t[4 * c + 2] = sp_S[a] ^ sp_S[b] ^ sp_S2[d] ^ sp_S3[e]; t[4 * c + 3] = sp_S3[a] ^ sp_S[b] ^ sp_S[d] ^ sp_S2[e];
            } else { t[4 * c] = sp_S[a]; t[4 * c + 1] = sp_S[b]; t[4 * c + 2] = sp_S[d]; t[4 * c + 3] = sp_S[e]; }
        }
        for (i = 0; i < 16; ++i) s[i] = t[i] ^ w[16 * r + i];
    }
    memcpy(out, s, 16);
}
/* ---- GHASH: product in GF(2^128), bit 0 is the leftmost bit (SP 800-38D, 6.3) */
static void sp_gmul(uint8_t z[16], const uint8_t x[16], const uint8_t y[16])
{
    uint64_t zh = 0, zl = 0, vh = 0, vl = 0; int i;
    for (i = 0; i < 8; ++i) { vh = vh << 8 | y[i]; vl = vl << 8 | y[8 + i]; }
    for (i = 0; i < 128; ++i) {
        uint64_t m = -(uint64_t)(x[i / 8] >> (7 - i % 8) & 1), l = -(vl & 1);
        zh ^= vh & m; zl ^= vl & m;
        vl = vl >> 1 | vh << 63; vh = vh >> 1 ^ (l & 0xe100000000000000ULL);
    }
    for (i = 0; i < 8; ++i) { z[i] = (uint8_t)(zh >> (56 - 8 * i)); z[8 + i] = (uint8_t)(zl >> (56 - 8 * i)); }
}
static void sp_be64(uint8_t *p, uint64_t v) { int i; for (i = 0; i < 8; ++i) p[i] = (uint8_t)(v >> (56 - 8 * i)); }
static void sp_le64(uint8_t *p, uint64_t v) { int i; for (i = 0; i < 8; ++i) p[i] = (uint8_t)(v >> (8 * i)); }
static void sp_ghash(uint8_t y[16], const uint8_t h[16], const uint8_t *p, size_t n)
{
    size_t i, j;
    for (i = 0; i < n; i += 16) { for (j = 0; j < 16 && i + j < n; ++j) y[j] ^= p[i + j]; sp_gmul(y, y, h); }
}
static void sp_gcm_crypt(uint8_t *out, const uint8_t *in, size_t n, const uint8_t w[240], const uint8_t iv[12])
{
    uint8_t c[16], k[16]; size_t i;
    memcpy(c, iv, 12);
    for (i = 0; i < n; ++i) {
        if (i % 16 == 0) { uint32_t v = (uint32_t)(2 + i / 16); c[12] = (uint8_t)(v >> 24); c[13] = (uint8_t)(v >> 16); c[14] = (uint8_t)(v >> 8); c[15] = (uint8_t)v; sp_aes256_block(k, w, c); }
        out[i] = in[i] ^ k[i % 16];
    }
}
static void sp_gcm_tag(uint8_t tag[16], const uint8_t w[240], const uint8_t iv[12], const uint8_t *ad, size_t al, const uint8_t *ct, size_t n)
{
    uint8_t h[16] = {0}, y[16] = {0}, c[16], l[16]; int i;
    sp_aes256_block(h, w, y); memcpy(c, iv, 12); c[12] = c[13] = c[14] = 0; c[15] = 1;
    sp_ghash(y, h, ad, al); sp_ghash(y, h, ct, n);
    sp_be64(l, 8 * (uint64_t)al); sp_be64(l + 8, 8 * (uint64_t)n); sp_ghash(y, h, l, 16);
    sp_aes256_block(c, w, c); for (i = 0; i < 16; ++i) tag[i] = y[i] ^ c[i];
}
#endif
