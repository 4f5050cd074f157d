/* Ideal hash functions: the objects of the hash backend collect their input and answer with an uninterpreted
 * function of all of it, so that equality of results means equality of every byte hashed, in order. */
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
#ifndef SH_MAX
#define SH_MAX 3000
#endif
typedef struct { struct NoiseHashState_s parent; size_t n; int live; uint8_t buf[SH_MAX]; } ShState;
static void sh_reset(NoiseHashState *s) { ((ShState *)s)->n = 0; ((ShState *)s)->live = 1; }
static void sh_update(NoiseHashState *s, const uint8_t *d, size_t n)
{
    ShState *h = (ShState *)s;
    vf_assert(h->live, "the hash is reset before use");
    vf_assert(n <= SH_MAX - h->n, "hash stub capacity");
    if (n) memcpy(h->buf + h->n, d, n);
    h->n += n;
}
static const char *sh_name(int id) { return id == NOISE_HASH_SHA256 ? "hash-sha256" : id == NOISE_HASH_SHA512 ? "hash-sha512" : id == NOISE_HASH_BLAKE2s ? "hash-blake2s" : "hash-blake2b"; }
static size_t sh_hlen(int id) { return (id == NOISE_HASH_SHA256 || id == NOISE_HASH_BLAKE2s) ? 32 : 64; }
static size_t sh_blen(int id) { return 2 * sh_hlen(id); }
static void sh_finalize(NoiseHashState *s, uint8_t *out)
{
    ShState *h = (ShState *)s;
    vf_assert(h->live, "the hash is reset before it is finalized");
    h->live = 0;
    vf_uf(sh_name(s->hash_id), out, s->hash_len, h->buf, h->n);
}
#ifndef SH_ALLOC
#define SH_ALLOC(n) noise_new_object(n)
#endif
static NoiseHashState *sh_new(int id)
{
    ShState *h = (ShState *)SH_ALLOC(sizeof(ShState));
    if (!h) return 0;
    h->parent.hash_id = id; h->parent.hash_len = (uint16_t)sh_hlen(id); h->parent.block_len = (uint16_t)sh_blen(id);
    h->parent.reset = sh_reset; h->parent.update = sh_update; h->parent.finalize = sh_finalize; h->parent.destroy = 0;
    return &h->parent;
}
NoiseHashState *noise_sha256_new(void) { return sh_new(NOISE_HASH_SHA256); }
NoiseHashState *noise_sha512_new(void) { return sh_new(NOISE_HASH_SHA512); }
NoiseHashState *noise_blake2s_new(void) { return sh_new(NOISE_HASH_BLAKE2s); }
NoiseHashState *noise_blake2b_new(void) { return sh_new(NOISE_HASH_BLAKE2b); }
