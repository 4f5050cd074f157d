/* Native replay back end: values come, in order, from the file named by VF_REPLAY
 * (one "width hex" pair per line); when they run out, zero is returned. */
#include "vf.h"
#include <stdio.h>
#undef fopen
#undef fclose
#undef fflush
#undef malloc
#undef calloc
static FILE *vf_f; static int vf_done;
static uint64_t vf_next(unsigned bits) {
    unsigned w; unsigned long long v;
    if (!vf_f && !vf_done) { const char *p = getenv("VF_REPLAY"); vf_done = 1; if (p) vf_f = fopen(p, "r"); }
    if (!vf_f) return 0;
    if (fscanf(vf_f, "%u %llx", &w, &v) != 2) return 0;
    if (w != bits) { printf("VF-DESYNC want %u got %u\n", bits, w); fflush(stdout); exit(78); }
    return v;
}
uint8_t vf_u8(const char *n) { (void)n; return (uint8_t)vf_next(8); }
uint16_t vf_u16(const char *n) { (void)n; return (uint16_t)vf_next(16); }
uint32_t vf_u32(const char *n) { (void)n; return (uint32_t)vf_next(32); }
uint64_t vf_u64(const char *n) { (void)n; return vf_next(64); }
void vf_bytes(void *p, size_t n, const char *name) { size_t i; for (i = 0; i < n; ++i) ((uint8_t *)p)[i] = vf_u8(name); }
void vf_assume(int c) { if (!c) { printf("VF-ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void vf_assert(int c, const char *w) { if (!c) { printf("VF-ASSERT-FAIL %s\n", w); fflush(stdout); _Exit(66); } }
void vf_assert_eq(const void *a, const void *b, size_t n, const char *w) { vf_assert(memcmp(a, b, n) == 0, w); }
void vf_cover(const char *w) { printf("VF-COVER %s\n", w); fflush(stdout); }
void *vf_obj(size_t n, size_t max) { (void)max; return malloc(n); }
void vf_stop(void) { fflush(stdout); _Exit(0); }
int vf_same(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
/* a concrete interpretation of the uninterpreted functions (injective in practice) */
void vf_uf(const char *fn, void *out, size_t outlen, const void *in, size_t inlen) {
    size_t i, k; const uint8_t *d = (const uint8_t *)in; uint8_t *tmp = (uint8_t *)malloc(outlen + 1);
    uint64_t h = 0xcbf29ce484222325ULL ^ (outlen * 0x9e3779b97f4a7c15ULL);
    for (; *fn; ++fn) h = (h ^ (uint8_t)*fn) * 0x100000001b3ULL;
    h ^= inlen * 0xff51afd7ed558ccdULL;
    for (i = 0; i < inlen; ++i) { h = (h ^ d[i]) * 0x100000001b3ULL; h ^= h >> 29; }
    for (i = 0; i < outlen; i += 8) {
        h += 0x9e3779b97f4a7c15ULL; uint64_t z = h;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31;
        for (k = 0; k < 8 && i + k < outlen; ++k) tmp[i + k] = (uint8_t)(z >> (8 * k));
    }
    memcpy(out, tmp, outlen); free(tmp);
}

int vf_identical(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
int vf_is_const(const void *p, size_t n) { (void)p; (void)n; return 1; }
int vf_ideal_same(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
#define VF_P ((1ULL << 61) - 1)
static uint64_t vf_mulm(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % VF_P); }
static uint64_t vf_powm(uint64_t a, uint64_t e) { uint64_t r = 1; a %= VF_P; for (; e; e >>= 1, a = vf_mulm(a, a)) if (e & 1) r = vf_mulm(r, a); return r; }
static void vf_fill(uint8_t *out, uint64_t x, size_t n) { size_t i; uint64_t z = x; for (i = 0; i < n; ++i) { if (i && i % 8 == 0) z = z * 6364136223846793005ULL + 1442695040888963407ULL; out[i] = (uint8_t)(z >> (8 * (i % 8))); } }
static uint64_t vf_h64(const char *nm, const void *p, size_t n) { uint8_t b[8]; uint64_t v; vf_uf(nm, b, 8, p, n); memcpy(&v, b, 8); return v; }
void vf_pub(void *out, const void *priv, size_t n, int alg) {
    uint8_t t[4096]; (void)alg; t[0] = 1; vf_fill(t + 1, vf_powm(3, vf_h64("dhexp", priv, n) | 1), n - 1); memcpy(out, t, n);
}
void vf_dh(void *out, const void *priv, const void *pub, size_t n, int alg) {
    uint8_t t[4096]; const uint8_t *p = (const uint8_t *)pub; uint64_t x; (void)alg;
    memcpy(&x, p + 1, 8); t[0] = 1;
    if (x < VF_P) vf_fill(t + 1, x, n - 1);
    if (!(x < VF_P && memcmp(t, p, n) == 0)) x = vf_h64("dhpt", pub, n) % VF_P;
    vf_fill(t, vf_powm(x, vf_h64("dhexp", priv, n) | 1), n); memcpy(out, t, n);
}
/* live heap blocks, counted by the sanitizer's allocator hooks */
static int vf_live; static void vf_mh(const volatile void *p, size_t n) { (void)n; if (p) ++vf_live; } static void vf_fh(const volatile void *p) { if (p) --vf_live; }
int vf_heap_live(void) { return vf_live; }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void harness(void);
int main(void) { static char ob[4096], ib[4096]; const char *p = getenv("VF_REPLAY"); vf_done = 1; if (p && (vf_f = fopen(p, "r"))) setvbuf(vf_f, ib, _IOFBF, sizeof ib); setvbuf(stdout, ob, _IOFBF, sizeof ob);
    __sanitizer_install_malloc_and_free_hooks(vf_mh, vf_fh); harness(); return 0; }

/* integers modulo a prime, natively: 16 little-endian 32-bit words, always reduced */
typedef struct { uint32_t w[16]; } vf_big;
static vf_big vf_fv[4096]; static int vf_fn = 1; static vf_big vf_fp; static int vf_fpbits;
uint64_t vf_bits(const char *n, unsigned bits) { (void)n; return vf_next(bits); }
static int vf_bge(const vf_big *a, const vf_big *b) { int i; for (i = 15; i >= 0; --i) if (a->w[i] != b->w[i]) return a->w[i] > b->w[i]; return 1; }
static void vf_bsub(vf_big *a, const vf_big *b) { int i; int64_t c = 0; for (i = 0; i < 16; ++i) { c += (int64_t)a->w[i] - b->w[i]; a->w[i] = (uint32_t)c; c >>= 32; } }
static void vf_badd(vf_big *a, const vf_big *b) { int i; uint64_t c = 0; for (i = 0; i < 16; ++i) { c += (uint64_t)a->w[i] + b->w[i]; a->w[i] = (uint32_t)c; c >>= 32; } }
static void vf_bred(vf_big *a) { if (vf_bge(a, &vf_fp)) vf_bsub(a, &vf_fp); }
static void vf_bdbl(vf_big *a) { vf_big t = *a; vf_badd(a, &t); vf_bred(a); }
static int vf_bnew(const vf_big *a) { if (vf_fn >= 4096) abort(); vf_fv[vf_fn] = *a; return vf_fn++; }
void vf_fmod(int which) { memset(&vf_fp, 0, sizeof vf_fp); vf_fpbits = which == 1 ? 130 : 255; vf_fp.w[vf_fpbits / 32] = 1u << (vf_fpbits % 32); { vf_big k; memset(&k, 0, sizeof k); k.w[0] = which == 1 ? 5 : 19; vf_bsub(&vf_fp, &k); } }
static void vf_bshladd(vf_big *r, uint64_t v, unsigned k) { vf_big x; int i; memset(&x, 0, sizeof x); for (i = 63; i >= 0; --i) { vf_bdbl(&x); if (v >> i & 1) { vf_big one; memset(&one, 0, sizeof one); one.w[0] = 1; vf_badd(&x, &one); vf_bred(&x); } } while (k--) vf_bdbl(&x); vf_badd(r, &x); vf_bred(r); }
int vf_fe(const uint64_t *l, const unsigned *sh, unsigned n) { vf_big r; unsigned i; memset(&r, 0, sizeof r); for (i = 0; i < n; ++i) vf_bshladd(&r, l[i], sh[i]); return vf_bnew(&r); }
int vf_fpow2(unsigned k) { vf_big r; memset(&r, 0, sizeof r); vf_bshladd(&r, 1, k); return vf_bnew(&r); }
int vf_fsmall(unsigned k) { vf_big r; memset(&r, 0, sizeof r); vf_bshladd(&r, k, 0); return vf_bnew(&r); }
int vf_fadd(int a, int b) { vf_big r = vf_fv[a]; vf_badd(&r, &vf_fv[b]); vf_bred(&r); return vf_bnew(&r); }
int vf_fsub(int a, int b) { vf_big r = vf_fv[a]; vf_badd(&r, &vf_fp); vf_bsub(&r, &vf_fv[b]); vf_bred(&r); return vf_bnew(&r); }
int vf_fmul(int a, int b) { vf_big r; int i; memset(&r, 0, sizeof r); for (i = 511; i >= 0; --i) { vf_bdbl(&r); if (vf_fv[b].w[i / 32] >> (i % 32) & 1) { vf_badd(&r, &vf_fv[a]); vf_bred(&r); } } return vf_bnew(&r); }
void vf_fcheck(int a, int b, const char *what) { vf_assert(memcmp(&vf_fv[a], &vf_fv[b], sizeof(vf_big)) == 0, what); }
void vf_range(const uint64_t *x, uint64_t max, const char *what) { vf_assert(*x <= max, what); }
uint64_t vf_upto(const char *n, uint64_t max) { uint64_t v; unsigned b = 0; (void)n; while (b < 64 && max >> b) ++b; v = vf_next(b); return v > max ? max : v; }
void vf_fdef(const uint64_t *l, const unsigned *sh, unsigned n, int h) { (void)l; (void)sh; (void)n; (void)h; }
