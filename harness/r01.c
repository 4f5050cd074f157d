/* R01: random generator over an ideal ChaCha20 keystream and symbolic entropy.
 * PART 0 call sequences, 1 padding and bad parameters, 2 the reseed interval, 3 the operating system source */
#include "vf.h"
#include <noise/protocol.h>
#if PART != 3
#ifndef EP
#define EP 64
#endif
#ifdef VF_SE
#define PUBLIC_KEY(k) vf_is_const(k, 32)
#else
#define PUBLIC_KEY(k) (memcmp(k, ep[0].key, 32) == 0)
#endif
#define BL 64
#ifndef BIG
#define BIG 0
#endif
static struct { uint8_t key[32], iv[12]; int root, req; long blocks, outb; uint8_t used[BL]; int kb; } ep[EP];
static int nep, cur_req, entropy_calls; static uint8_t ent[64]; static long since; static uint8_t *ub; static size_t un;
static uint8_t blk[64];
void noise_rand_bytes(void *p, size_t n)
{
    vf_assert(n >= 32 && n <= sizeof(ent), "at least 256 bits of entropy asked for");
    vf_bytes(ent, n, "entropy"); memcpy(p, ent, n); ++entropy_calls; since = 0;
}
static void ks(int e, long b)
{
    uint8_t a[8]; memcpy(a, &e, 4); a[4] = (uint8_t)b; a[5] = (uint8_t)(b >> 8); a[6] = 0; a[7] = 0; vf_uf("chacha", blk, 64, a, 8);
}
/* where a new key comes from: unused keystream of an earlier key, or that mixed with entropy */
static void origin(int e)
{
    int p; uint8_t t[32]; size_t i;
    ep[e].root = 0; ep[e].kb = -1;
    if (PUBLIC_KEY(ep[e].key)) return;  /* the starting constant: nothing may be output under it */
    for (p = e - 1; p >= 0; --p) {
        if (ep[p].kb < 0) continue;
        ks(p, ep[p].kb);
        for (i = 0; i < 32; ++i) t[i] = (uint8_t)(ep[e].key[i] ^ blk[i]);
        if (vf_identical(t, ent, 32)) { ep[e].root = entropy_calls; return; }
        if (vf_identical(blk, ep[e].key, 32)) { ep[e].root = ep[p].root; return; }
    }
    vf_assert(0, "every key comes from keystream that is not handed out");
}
static int newep(const uint8_t *k)
{
    int e = nep++; vf_assert(nep <= EP, "harness: enough epochs");
    memcpy(ep[e].key, k, 32);
#ifndef NATIVE_LAX
    origin(e);
#endif
    return e;
}
static void crypt(int e, long b, uint8_t *c, const uint8_t *m, size_t n)
{
    int user = ub && c >= ub && c < ub + un; size_t i, j;
    if (user) {
        vf_assert(c + n <= ub + un, "stays inside the buffer");
        vf_assert(ep[e].root > 0, "no output before entropy was mixed in");
        vf_assert(ep[e].req == 0 || ep[e].req == cur_req, "the key is replaced after every request");
        ep[e].req = cur_req; since += (long)n;
        vf_assert(since <= 1600064, "fresh entropy after every 1600000 bytes");
    }
    for (i = 0; i < n; i += 64, ++b) {
        vf_assert(b >= 0 && b < BL && !ep[e].used[b], "no keystream block is used twice"); ep[e].used[b] = 1;
        ++ep[e].blocks; if (user) vf_assert(++ep[e].outb <= 17, "a new key after at most 16 or 17 blocks");
        if (!user && i == 0) ep[e].kb = (int)b;
        if (BIG && user) continue;
        ks(e, b);
        for (j = 0; j < 64 && i + j < n; ++j) c[i + j] = (uint8_t)(m[i + j] ^ blk[j]);
        if (user) vf_assert(vf_identical(c + i, blk, n - i < 64 ? n - i : 64), "output is keystream and nothing else");
    }
}
#if !USE_LIBSODIUM
#include "crypto/chacha/chacha.h"
typedef struct { int e; int b; } cs;
void chacha_keysetup(chacha_ctx *x, const uint8_t *k, uint32_t bits) { vf_assert(bits == 256, "256-bit keys"); ((cs *)x)->e = newep(k); ((cs *)x)->b = 0; }
void chacha_ivsetup(chacha_ctx *x, const uint8_t *iv, const uint8_t *ctr)
{
    cs *s = (cs *)x; (void)ctr; vf_assert(ctr == 0, "harness: counter zero");
    if (ep[s->e].blocks) { int r = ep[s->e].root; (void)r; s->e = newep(ep[s->e].key); }
    memcpy(ep[s->e].iv, iv, 8); s->b = 0;
}
void chacha_encrypt_bytes(chacha_ctx *x, const uint8_t *m, uint8_t *c, uint32_t n) { cs *s = (cs *)x; crypt(s->e, s->b, c, m, n); s->b += (int)((n + 63) / 64); }
#else
#include <sodium.h>
static int find(const uint8_t *k, const uint8_t *iv)
{
    int e; for (e = nep - 1; e >= 0 && e > nep - 16; --e) if (!PUBLIC_KEY(k) && vf_identical(k, ep[e].key, 32) && vf_identical(iv, ep[e].iv, 12)) return e;
    e = newep(k); memcpy(ep[e].iv, iv, 12); return e;
}
int crypto_stream_chacha20_ietf_xor_ic(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *iv, uint32_t ic, const unsigned char *k) { crypt(find(k, iv), ic, c, m, n); return 0; }
int crypto_stream_chacha20_ietf_xor(unsigned char *c, const unsigned char *m, unsigned long long n, const unsigned char *iv, const unsigned char *k) { crypt(find(k, iv), 0, c, m, n); return 0; }
#endif
static int gen(NoiseRandState *s, uint8_t *p, size_t n) { int r; ub = p; un = n; ++cur_req; r = noise_randstate_generate(s, p, n); ub = 0; un = 0; return r; }
#endif
#if PART == 0
static const size_t lens[] = { LENS };
#define NL (sizeof(lens) / sizeof(lens[0]))
void harness(void)
{
    NoiseRandState *s = 0; int i, e0; uint8_t *p; size_t n;
    vf_assert(noise_randstate_new(0) == NOISE_ERROR_INVALID_PARAM, "no place for the object");
    vf_assert(noise_randstate_new(&s) == NOISE_ERROR_NONE && s, "create");
    vf_assert(entropy_calls == 1, "seeded at creation");
    for (i = 0; i < STEPS; ++i) {
        uint8_t op = vf_u8("op"); vf_assume(op < NL + 2); e0 = entropy_calls;
        if (op == NL) { vf_assert(noise_randstate_reseed(s) == NOISE_ERROR_NONE && entropy_calls == e0 + 1, "reseed asks for entropy"); continue; }
        if (op == NL + 1) {
            n = lens[NL - 1]; p = vf_obj(n, n); vf_bytes(p, n, "old"); ub = p; un = n; ++cur_req;
            vf_assert(noise_randstate_generate_simple(p, n) == NOISE_ERROR_NONE && entropy_calls == e0 + 1, "generate_simple seeds itself"); ub = 0; vf_cover("simple");
            vf_assert(since == (long)n, "the whole buffer is filled");
        } else {
            long b4; size_t k = 0; while (op != k) ++k;
            n = lens[k]; p = vf_obj(n, n); vf_bytes(p, n, "old"); b4 = since;
            vf_assert(gen(s, p, n) == NOISE_ERROR_NONE, "generate"); vf_assert(since == b4 + (long)n, "the whole buffer is filled");
        }
        free(p);
    }
    /* the key in force now was never used for output */
    { uint8_t q[1]; vf_assert(gen(s, q, 1) == NOISE_ERROR_NONE, "one byte more"); }
    vf_assert(noise_randstate_free(s) == NOISE_ERROR_NONE && noise_randstate_free(0) == NOISE_ERROR_INVALID_PARAM, "free");
    vf_cover("end");
}
#elif PART == 1
void harness(void)
{
    NoiseRandState *s = 0; uint8_t o0 = vf_u8("orig"), n0 = vf_u8("padded"), sel = vf_u8("sel"); size_t mx; uint8_t *p, old[64], z[64] = {0}; int r;
    size_t o, n; int mode = vf_int("mode");
    vf_assume(o0 <= MAXP && n0 <= MAXP && sel < 4);
    for (o = 0; o < o0; ++o) ;  /* a path per length */
    for (n = 0; n < n0; ++n) ;
    mx = o > n ? o : n; p = vf_obj(mx, 64); vf_bytes(p, mx, "payload"); memcpy(old, p, mx);
    if (sel == 1) {
        vf_assert(noise_randstate_pad(0, p, o, n, mode) == NOISE_ERROR_INVALID_PARAM, "no generator");
        vf_assert_eq(p, old, o, "payload untouched"); if (n > o) vf_assert_eq(p + o, z, n - o, "no old contents in the padding");
        vf_cover("no generator"); vf_cover("end"); return;
    }
    if (sel == 2) {
        vf_assert(noise_randstate_generate(0, p, mx) == NOISE_ERROR_INVALID_PARAM, "no generator"); vf_assert_eq(p, z, mx, "buffer zeroed");
        vf_assert(noise_randstate_generate_simple(0, mx) == NOISE_ERROR_INVALID_PARAM && noise_randstate_reseed(0) == NOISE_ERROR_INVALID_PARAM, "no parameters");
        vf_cover("end"); return;
    }
    vf_assert(noise_randstate_new(&s) == NOISE_ERROR_NONE, "create");
    if (sel == 3) { vf_assert(noise_randstate_generate(s, 0, n) == NOISE_ERROR_INVALID_PARAM && noise_randstate_pad(s, 0, o, n, mode) == NOISE_ERROR_INVALID_PARAM, "no buffer"); vf_cover("end"); return; }
    ub = p + o; un = n > o ? n - o : 0; ++cur_req;
    r = noise_randstate_pad(s, p, o, n, mode);
    vf_assert(r == NOISE_ERROR_NONE, "padding succeeds");
    vf_assert_eq(p, old, n > o ? o : mx, "payload untouched");
    if (n > o) {
        if (mode == NOISE_PADDING_ZERO) { vf_assert(since == 0, "no random bytes spent"); vf_assert_eq(p + o, z, n - o, "zero padding"); vf_cover("zero"); }
        else { vf_assert(since == (long)(n - o), "random padding fills the area"); vf_cover("random"); }
    } else { vf_assert(since == 0, "nothing padded"); vf_cover("nothing"); }
    noise_randstate_free(s); vf_cover("end");
}
#elif PART == 2
/* requests that together cross the reseed interval; the ideal cipher only keeps count */
static uint8_t big[BIGLEN];
void harness(void)
{
    NoiseRandState *s = 0; static const size_t l[] = { LENS }; size_t i;
    vf_assert(noise_randstate_new(&s) == NOISE_ERROR_NONE, "create");
    for (i = 0; i < sizeof(l) / sizeof(l[0]); ++i) vf_assert(gen(s, big, l[i]) == NOISE_ERROR_NONE, "generate");
    vf_assert(entropy_calls >= RESEEDS, "the system was asked again");
    vf_cover("end");
}
#else
/* the operating system source with every outcome of open and read */
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
static int fd_open = -1, dead, opened, filled, ok_read, reads, done; static uint8_t dat[64]; static void *want; static size_t wn;
static int my_open(const char *p, int fl, ...) { vf_assert(strcmp(p, "/dev/urandom") == 0 && (fl & O_ACCMODE) == O_RDONLY, "the system's random device"); vf_assert(fd_open < 0, "one at a time"); ++opened; if (vf_u8("openfail") & 1) { dead = 1; vf_cover("open fails"); return -1; } fd_open = 5; return 5; }
static ssize_t my_read(int fd, void *b, size_t n)
{
    int r = (int8_t)vf_u8("read");
    vf_assert(fd == fd_open && fd >= 0, "reads from the device"); vf_assert((uint8_t *)b >= (uint8_t *)want && (uint8_t *)b + n <= (uint8_t *)want + wn, "reads into the buffer");
    vf_assert(!dead, "a failure is reported, not retried for ever"); if (++reads > 4) vf_stop();
    vf_assume(r >= -1 && r <= (int)n);
    if (r < 0) { if (vf_u8("intr") & 1) errno = EINTR; else { errno = EIO; dead = 1; } vf_cover("read fails"); return -1; }
    vf_bytes(dat, (size_t)r, "os"); memcpy(b, dat, (size_t)r); { size_t o = (size_t)((uint8_t *)b - (uint8_t *)want); if (o == (size_t)filled) filled += r; }
    if (r < (int)n) { dead = r == 0; vf_cover("short read"); }
    return r;
}
static int my_close(int fd) { vf_assert(fd == fd_open, "closes the device"); fd_open = -1; return 0; }
static void my_exit(int c) { vf_assert(c != 0, "gives up with a failure status"); vf_assert(filled < (int)wn, "gives up only without entropy"); vf_assert(fd_open < 0, "closed"); vf_assert(dead || filled > 0, "an interrupted call alone is not a failure"); vf_cover("gives up"); vf_cover("end"); vf_stop(); }
#define open my_open
#define read my_read
#define close my_close
#define exit my_exit
#define abort() my_exit(134)
#define perror(x) ((void)0)
#define main unused_main
#include "protocol/rand_os.c"
#undef exit
void harness(void)
{
    uint8_t n0 = vf_u8("n"); uint8_t *p; size_t n;
    vf_assume(n0 >= 1 && n0 <= 40); for (n = 0; n < n0; ++n) ; wn = n; p = vf_obj(n, 64); want = p;
    noise_rand_bytes(p, n);
    vf_assert(filled == (int)n, "returns only with every byte from the system"); vf_assert(fd_open < 0 && opened >= 1, "closed");
    vf_cover("filled"); vf_cover("end");
}
#endif
