#include "spec_hash.h"
static const uint32_t K256[] = {0x428a2f98u, 0x71374491u, 0xb5c0fbcfu, 0xe9b5dba5u, 0x3956c25bu, 0x59f111f1u, 0x923f82a4u, 0xab1c5ed5u, 0xd807aa98u, 0x12835b01u, 0x243185beu, 0x550c7dc3u, 0x72be5d74u, 0x80deb1feu, 0x9bdc06a7u, 0xc19bf174u, 0xe49b69c1u, 0xefbe4786u, 0x0fc19dc6u, 0x240ca1ccu, 0x2de92c6fu, 0x4a7484aau, 0x5cb0a9dcu, 0x76f988dau, 0x983e5152u, 0xa831c66du, 0xb00327c8u, 0xbf597fc7u, 0xc6e00bf3u, 0xd5a79147u, 0x06ca6351u, 0x14292967u, 0x27b70a85u, 0x2e1b2138u, 0x4d2c6dfcu, 0x53380d13u, 0x650a7354u, 0x766a0abbu, 0x81c2c92eu, 0x92722c85u, 0xa2bfe8a1u, 0xa81a664bu, 0xc24b8b70u, 0xc76c51a3u, 0xd192e819u, 0xd6990624u, 0xf40e3585u, 0x106aa070u, 0x19a4c116u, 0x1e376c08u, 0x2748774cu, 0x34b0bcb5u, 0x391c0cb3u, 0x4ed8aa4au, 0x5b9cca4fu, 0x682e6ff3u, 0x748f82eeu, 0x78a5636fu, 0x84c87814u, 0x8cc70208u, 0x90befffau, 0xa4506cebu, 0xbef9a3f7u, 0xc67178f2u};
static const uint64_t K512[] = {0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull, 0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull, 0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull, 0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull, 0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull, 0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull, 0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull, 0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull};
static const uint32_t H256[] = {0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u};
static const uint64_t H512[] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SIG[10][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}, {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8}, {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9}, {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10}, {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};

#define GEN_SHA(NAME, W, WB, ROUNDS, K, H, S0a,S0b,S0c, S1a,S1b,S1c, s0a,s0b,s0s, s1a,s1b,s1s) \
static W NAME##_r(W x, int n) { return (x >> n) | (x << (8 * WB - n)); } \
static void NAME##_blk(W h[8], const uint8_t *b) { \
    W w[ROUNDS], v[8]; int t, i; \
    for (t = 0; t < 16; ++t) { w[t] = 0; for (i = 0; i < WB; ++i) w[t] = (w[t] << 8) | b[t * WB + i]; } \
    for (t = 16; t < ROUNDS; ++t) { \
        W x = w[t - 15], y = w[t - 2]; \
        w[t] = (NAME##_r(y, s1a) ^ NAME##_r(y, s1b) ^ (y >> s1s)) + w[t - 7] + (NAME##_r(x, s0a) ^ NAME##_r(x, s0b) ^ (x >> s0s)) + w[t - 16]; } \
    for (i = 0; i < 8; ++i) v[i] = h[i]; \
    for (t = 0; t < ROUNDS; ++t) { \
        W e = v[4], a = v[0]; \
        W t1 = v[7] + (NAME##_r(e, S1a) ^ NAME##_r(e, S1b) ^ NAME##_r(e, S1c)) + ((e & v[5]) ^ (~e & v[6])) + K[t] + w[t]; \
        W t2 = (NAME##_r(a, S0a) ^ NAME##_r(a, S0b) ^ NAME##_r(a, S0c)) + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2])); \
        for (i = 7; i > 0; --i) v[i] = v[i - 1]; \
        v[4] += t1; v[0] = t1 + t2; } \
    for (i = 0; i < 8; ++i) h[i] += v[i]; } \
void spec_##NAME(uint8_t *out, const uint8_t *m, size_t n) { spec_##NAME##_ex(out, m, n, 0); } \
void spec_##NAME##_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra) { \
    W h[8]; uint8_t last[32 * WB]; size_t i, full = n / (16 * WB), rest = n % (16 * WB), tot; int k; \
    for (i = 0; i < 8; ++i) h[i] = H[i]; \
    for (i = 0; i < full; ++i) NAME##_blk(h, m + i * 16 * WB); \
    for (i = 0; i < 32 * WB; ++i) last[i] = 0; \
    for (i = 0; i < rest; ++i) last[i] = m[full * 16 * WB + i]; \
    last[rest] = 0x80; \
    tot = (rest + 1 + 2 * WB <= 16 * WB) ? 16 * WB : 32 * WB; \
    for (k = 0; k < 8; ++k) last[tot - 1 - k] = (uint8_t)((((uint64_t)n + extra) * 8) >> (8 * k)); \
    NAME##_blk(h, last); if (tot == 32 * WB) NAME##_blk(h, last + 16 * WB); \
    for (i = 0; i < 8; ++i) for (k = 0; k < WB; ++k) out[i * WB + k] = (uint8_t)(h[i] >> (8 * (WB - 1 - k))); }
GEN_SHA(sha256, uint32_t, 4, 64, K256, H256, 2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10)
GEN_SHA(sha512, uint64_t, 8, 80, K512, H512, 28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6)

#define GEN_B2(NAME, W, WB, ROUNDS, IV, R1, R2, R3, R4) \
static W NAME##_r(W x, int n) { return (x >> n) | (x << (8 * WB - n)); } \
static void NAME##_g(W *v, int a, int b, int c, int d, W x, W y) { \
    v[a] = v[a] + v[b] + x; v[d] = NAME##_r(v[d] ^ v[a], R1); v[c] = v[c] + v[d]; v[b] = NAME##_r(v[b] ^ v[c], R2); \
    v[a] = v[a] + v[b] + y; v[d] = NAME##_r(v[d] ^ v[a], R3); v[c] = v[c] + v[d]; v[b] = NAME##_r(v[b] ^ v[c], R4); } \
static void NAME##_f(W h[8], const uint8_t *b, uint64_t t, int last) { \
    W m[16], v[16]; int i, k; const uint8_t *s; \
    for (i = 0; i < 16; ++i) { m[i] = 0; for (k = WB - 1; k >= 0; --k) m[i] = (m[i] << 8) | b[i * WB + k]; } \
    for (i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = IV[i]; } \
    v[12] ^= (W)t; if (WB == 4) v[13] ^= (W)(t >> 32); \
    if (last) v[14] = ~v[14]; \
    for (i = 0; i < ROUNDS; ++i) { \
        s = SIG[i % 10]; \
        NAME##_g(v, 0, 4, 8, 12, m[s[0]], m[s[1]]); NAME##_g(v, 1, 5, 9, 13, m[s[2]], m[s[3]]); \
        NAME##_g(v, 2, 6, 10, 14, m[s[4]], m[s[5]]); NAME##_g(v, 3, 7, 11, 15, m[s[6]], m[s[7]]); \
        NAME##_g(v, 0, 5, 10, 15, m[s[8]], m[s[9]]); NAME##_g(v, 1, 6, 11, 12, m[s[10]], m[s[11]]); \
        NAME##_g(v, 2, 7, 8, 13, m[s[12]], m[s[13]]); NAME##_g(v, 3, 4, 9, 14, m[s[14]], m[s[15]]); } \
    for (i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8]; } \
void spec_##NAME(uint8_t *out, const uint8_t *m, size_t n) { spec_##NAME##_ex(out, m, n, 0); } \
void spec_##NAME##_ex(uint8_t *out, const uint8_t *m, size_t n, uint64_t extra) { \
    W h[8]; uint8_t blk[16 * WB]; size_t i, done = 0; int k; \
    for (i = 0; i < 8; ++i) h[i] = IV[i]; \
    h[0] ^= 0x01010000u ^ (8 * WB); \
    while (n - done > 16 * WB) { NAME##_f(h, m + done, done + 16 * WB + (done ? extra : 0), 0); done += 16 * WB; } \
    for (i = 0; i < 16 * WB; ++i) blk[i] = 0; \
    for (i = 0; i < n - done; ++i) blk[i] = m[done + i]; \
    NAME##_f(h, blk, n + extra, 1); \
    for (i = 0; i < 8; ++i) for (k = 0; k < WB; ++k) out[i * WB + k] = (uint8_t)(h[i] >> (8 * k)); }
GEN_B2(blake2s, uint32_t, 4, 10, H256, 16, 12, 8, 7)
GEN_B2(blake2b, uint64_t, 8, 12, H512, 32, 24, 16, 63)
