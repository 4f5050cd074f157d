/* stand-in for libsodium's hash API: accumulates and applies the reference definition */
#include <sodium.h>
#include "spec_hash.h"
#include <string.h>
static struct { const void *st; uint8_t buf[700]; size_t n; } S[8];
static int slot(const void *p, int make) { int i; for (i = 0; i < 8; ++i) if (S[i].st == p) return i; for (i = 0; i < 8; ++i) if (!S[i].st) { if (make) { S[i].st = p; return i; } } return make ? 0 : -1; }
#define HASH(NAME, CTX, SPEC) \
int crypto_hash_##NAME##_init(CTX *c) { int i = slot(c, 1); S[i].n = 0; return 0; } \
int crypto_hash_##NAME##_update(CTX *c, const unsigned char *d, unsigned long long n) { int i = slot(c, 1); memcpy(S[i].buf + S[i].n, d, n); S[i].n += n; return 0; } \
int crypto_hash_##NAME##_final(CTX *c, unsigned char *o) { int i = slot(c, 1); SPEC(o, S[i].buf, S[i].n); return 0; }
HASH(sha256, crypto_hash_sha256_state, spec_sha256)
HASH(sha512, crypto_hash_sha512_state, spec_sha512)
static size_t b2len; static int b2bad;
int crypto_generichash_blake2b_init(crypto_generichash_blake2b_state *c, const unsigned char *k, const size_t kl, const size_t ol) { int i = slot(c, 1); S[i].n = 0; b2len = ol; b2bad = kl != 0; return 0; }
int crypto_generichash_blake2b_update(crypto_generichash_blake2b_state *c, const unsigned char *d, unsigned long long n) { int i = slot(c, 1); memcpy(S[i].buf + S[i].n, d, n); S[i].n += n; return 0; }
int crypto_generichash_blake2b_final(crypto_generichash_blake2b_state *c, unsigned char *o, const size_t ol) { int i = slot(c, 1); if (ol != 64 || b2len != 64 || b2bad) { memset(o, 0xee, ol); return 0; } spec_blake2b(o, S[i].buf, S[i].n); return 0; }
int crypto_generichash_init(crypto_generichash_state *c, const unsigned char *k, const size_t kl, const size_t ol) { return crypto_generichash_blake2b_init((void*)c, k, kl, ol); }
int crypto_generichash_update(crypto_generichash_state *c, const unsigned char *d, unsigned long long n) { return crypto_generichash_blake2b_update((void*)c, d, n); }
int crypto_generichash_final(crypto_generichash_state *c, unsigned char *o, const size_t ol) { return crypto_generichash_blake2b_final((void*)c, o, ol); }
