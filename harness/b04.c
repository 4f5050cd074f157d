/* B04: private keys under a passphrase (and the file forms of all loaders).  -DPART */
#define VF_OOM_MAIN
#define VF_FILE_MAIN
#include "vf_oom.h"
#include "vf_file.h"
#include <noise/keys/certificate.h>
#include <noise/keys.h>
#define SH_MAX 8
#define MAXB 80
#if PART == 5
#define SA_MAX 66100
#endif
#include "stub_hash.h"
#include "stub_aead.h"
#ifndef MAXS
#define MAXS 1
#endif
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
int vf_oom_pick(void) { return vf_oom_failed < 1 && choose(2); }
#include "cert_schema.h"
extern uint8_t vf_last_salt[16]; extern int vf_salts, vf_kdf_calls; extern size_t vf_kdf_iter;
int noise_hashstate_pbkdf2(NoiseHashState *state, const uint8_t *pp, size_t pl, const uint8_t *salt, size_t sl, size_t it, uint8_t *out, size_t outlen);
/* ---- files ---- */
#define FMAX 70000
static uint8_t file[FMAX]; static size_t file_n; static VfFile vf; static int f_fail, f_on, f_opens; static char f_name;
static int ffail(void) { if (f_on && !f_fail && choose(2)) { f_fail = 1; return 1; } return 0; }
#define F ((VfFile *)f)
FILE *vf_fopen(const char *n, const char *m) { vf_assert(n == &f_name && !vf.open, "the named file, once"); ++f_opens; if (ffail()) return 0; vf.open = 1; vf.pos = 0; vf.err = 0; vf.writing = m[0] == 'w'; vf_assert((m[0] == 'r' || m[0] == 'w') && m[1] == 'b', "binary mode"); if (vf.writing) file_n = 0; return (FILE *)&vf; }
int vf_fclose(FILE *f) { vf_assert(F->open, "an open file is closed"); F->open = 0; return F->writing && ffail() ? -1 : 0; }
int vf_fseek(FILE *f, long o, int w) { vf_assert(F->open && !F->writing && o == 0, "seek"); if (ffail()) return -1; F->pos = w == SEEK_END ? file_n : 0; return 0; }
long vf_ftell(FILE *f) { vf_assert(F->open, "tell"); return (long)F->pos; }
size_t vf_fread(void *p, size_t a, size_t b, FILE *f) { size_t n = a * b; vf_assert(F->open && !F->writing, "read"); if (ffail()) { F->err = 1; return 0; } if (n > file_n - F->pos) n = file_n - F->pos; memcpy(p, file + F->pos, n); F->pos += n; return n; }
size_t vf_fwrite(const void *p, size_t a, size_t b, FILE *f) { size_t n = a * b; vf_assert(F->open && F->writing && n <= FMAX - F->pos, "write"); if (ffail()) return n / 2; memcpy(file + F->pos, p, n); F->pos += n; file_n = F->pos; return n; }
int vf_ferror(FILE *f) { return F->err; }
int vf_fflush(FILE *f) { (void)f; return ffail() ? -1 : 0; }
/* ---- protection names ---- */
static const struct { const char *n; int cipher, hash; } P_[] = {
 {"ChaChaPoly_BLAKE2b_PBKDF2", NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b}, {"ChaChaPoly_BLAKE2s_PBKDF2", NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s}, {"ChaChaPoly_SHA512_PBKDF2", NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA512}, {"AESGCM_SHA256_PBKDF2", NOISE_CIPHER_AESGCM, NOISE_HASH_SHA256}, {"AESGCM_BLAKE2b_PBKDF2", NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2b},
 {"", 0, 0}, {"ChaChaPoly", 0, 0}, {"ChaChaPoly_", 0, 0}, {"ChaChaPoly_BLAKE2b", 0, 0}, {"ChaChaPoly_BLAKE2b_", 0, 0}, {"ChaChaPoly_BLAKE2b_PBKDF", 0, 0}, {"ChaChaPoly_BLAKE2b_PBKDF2_", 0, 0}, {"ChaChaPoly_BLAKE2b_scrypt", 0, 0}, {"_BLAKE2b_PBKDF2", 0, 0}, {"ChaChaPoly__PBKDF2", 0, 0}, {"BLAKE2b_ChaChaPoly_PBKDF2", 0, 0}, {"ChaChaPol_BLAKE2b_PBKDF2", 0, 0}, {"ChaChaPoly_SHA25_PBKDF2", 0, 0}, {"25519_SHA256_PBKDF2", 0, 0} };
#define NGOOD 5
#define NP ((int)(sizeof P_ / sizeof P_[0]))
/* the documented file form: fields 10, 11, 12, 13 and 15 */
static uint8_t ct[200], kd[40];
static size_t seal(int p, const uint8_t *pass, size_t pl, const uint8_t *salt, size_t sl, uint32_t it, const uint8_t *pt, size_t n)
{
    struct NoiseHashState_s h; uint64_t no = 0; int i; memset(&h, 0, sizeof h); h.hash_id = P_[p].hash;
    noise_hashstate_pbkdf2(&h, pass, pl, salt, sl, it, kd, 40); for (i = 32; i < 40; ++i) no = no << 8 | kd[i];
    memcpy(ct, pt, n); sa_crypt(P_[p].cipher, kd, no, ct, n); sa_tag(P_[p].cipher, kd, no, 0, 0, ct, n, ct + n); return n + 16;
}
static struct node *enclosing(int p, const uint8_t *salt, size_t sl, uint32_t it, const uint8_t *data, size_t n)
{
    struct node *e = mk(ENCK); e->v[0].u = 1; e->v[1].has = 1; e->v[1].n = strlen(P_[p].n); memcpy(e->v[1].b, P_[p].n, e->v[1].n); e->v[2].has = 1; e->v[2].n = sl; memcpy(e->v[2].b, salt, sl); e->v[3].u = it; e->v[4].has = 1; e->v[4].n = n; memcpy(e->v[4].b, data, n); return e;
}
static uint8_t pass[4], pass2[4], pt[100]; static size_t pl;
static void *mkkey(struct node *d, int kind)
{
    void *o = 0, *k; vf_assert(r_new(PRIV, &o) == 0, "new");
    if (kind >= 1) setstr(d, 0, o, kind == 2 ? 2 : 0);
    if (kind >= 1) { d->v[3].k[0] = mk(PRIVK); vf_assert(CNEW(M[PRIV].f[3].set, o, &k) == 0, "add"); d->v[3].nk = 1; setstr(d->v[3].k[0], 0, k, 1); setstr(d->v[3].k[0], 1, k, 3); }
    return o;
}
static uint8_t out[300];
#ifndef DMASK
#define DMASK
#endif
#if PART == 0
/* save, load back; too little room */
void harness(void)
{
    struct node *d = mk(PRIV), *e; int kind = KIND, p = choose(NP), h0 = vf_heap_live(), h, r; void *o = mkkey(d, kind), *o2 = &o2; size_t n, t, room, L; NoiseProtobuf pb, q; const size_t tail = 7; uint8_t salt[16];
    h = vf_heap_live(); pl = upto(3, "passlen"); vf_bytes(pass, pl, "pass"); n = encode(pt, 0, d, 0);
    vf_assert(noise_save_private_key_to_buffer(0, &pb, pass, pl, P_[p].n) == NOISE_ERROR_INVALID_PARAM && noise_save_private_key_to_buffer(o, 0, pass, pl, P_[p].n) == NOISE_ERROR_INVALID_PARAM && noise_save_private_key_to_buffer(o, &pb, 0, pl, P_[p].n) == NOISE_ERROR_INVALID_PARAM && noise_save_private_key_to_buffer(o, &pb, pass, pl, 0) == NOISE_ERROR_INVALID_PARAM, "null");
    L = strlen(P_[p].n); t = 2 + (2 + L) + 18 + (1 + 3) + (1 + varlen(n + 16) + n + 16);
    room = choose(2) ? t + upto(2, "more") : (size_t)upto(t - 1, "room");
    memset(out, 0x55, sizeof out); memset(&pb, 0, sizeof pb); noise_protobuf_prepare_output(&pb, out, room);
    if (choose(2)) { pb.size += tail; }      /* something already written after it */
    r = noise_save_private_key_to_buffer(o, &pb, pass, pl, P_[p].n);
    vf_assert(vf_heap_live() == h, "nothing leaks"); same(d, o);
    { size_t i; for (i = room; i < sizeof out; ++i) if (out[i] != 0x55) break; vf_assert(i == sizeof out, "nothing is written outside the room given"); }
    if (!P_[p].cipher) { vf_assert(r == NOISE_ERROR_UNKNOWN_NAME && pb.posn == room, "unknown protection is refused"); vf_assert(vf_salts == 0, "refused early"); r_free(PRIV, o); vf_cover("unknown"); return; }
    if (room < t) { vf_assert(r == NOISE_ERROR_INVALID_LENGTH, "too little room is reported"); if (room < n + 16) { size_t i, bad = 0; for (i = 0; i < room; ++i) bad |= !vf_is_const(out + i, 1); vf_assert(!bad, "no key bytes left behind"); vf_cover("tiny"); } r_free(PRIV, o); vf_cover("short"); return; }
    vf_assert(r == 0 && pb.posn == room - t && pb.error == 0, "saved"); vf_assert(vf_kdf_iter == 20000, "recommended iterations");
    memcpy(salt, out + pb.posn + 2 + 2 + L + 2, 16); vf_assert_eq(salt, vf_last_salt, 16, "the salt is the fresh random one");
    seal(p, pass, pl, salt, 16, 20000, pt, n); e = enclosing(p, salt, 16, 20000, ct, n + 16); vf_assert(encode(enc, 0, e, 0) == t, "size");
    vf_assert_eq(out + pb.posn, enc, t, "the documented file form"); if (vf_salts > 1) vf_cover("retry");
    memset(&q, 0, sizeof q); noise_protobuf_prepare_input(&q, out + pb.posn, t); vf_assert(noise_load_private_key_from_buffer((Noise_PrivateKey **)&o2, &q, pass, pl) == 0, "loaded back with the same passphrase"); same(d, o2); r_free(PRIV, o2); vf_assert_eq(out + pb.posn, enc, t, "input untouched");
    r_free(PRIV, o); vf_assert(vf_heap_live() == h0, "nothing leaks"); vf_cover("end");
}
#elif PART == 1
/* the wrong passphrase, an altered or shortened file */
void harness(void)
{
    struct node *d = mk(PRIV), *e; 
#if MODE == 1
    int kind = KIND, p = 0,
#else
    int kind = choose(3), p = choose(NGOOD),
#endif
    h = vf_heap_live(), r, any = 0; void *o = mkkey(d, kind), *o2 = &o2; size_t n, t, i, pl2; NoiseProtobuf q; uint8_t salt[4]; uint8_t dl; uint8_t *b; uint32_t it;
    pl = upto(2, "passlen"); vf_bytes(pass, pl, "pass"); vf_bytes(salt, 4, "salt"); n = encode(pt, 0, d, 0); it = 0x180 | (vf_u8("iterations") & 0x7f); seal(p, pass, pl, salt, 4, it, pt, n); e = enclosing(p, salt, 4, it, ct, n + 16); t = encode(enc, 0, e, 0); r_free(PRIV, o); vf_assert(vf_heap_live() == h, "nothing leaks");
    b = malloc(t); memcpy(b, enc, t); memcpy(pass2, pass, pl); pl2 = pl; h = vf_heap_live();
    memset(&q, 0, sizeof q);
#if MODE == 0
    pl2 = upto(3, "otherlen"); vf_bytes(pass2, pl2, "other"); if (pl2 == pl) { for (i = 0; i < pl; ++i) any |= pass[i] != pass2[i]; vf_assume(any); }
#elif MODE == 1
    i = vf_u8("position"); vf_assume(i >= LO && i < HI && i < t); { size_t k; for (k = LO; k < HI && k < t; ++k) if (k == i) break; i = k; } dl = vf_u8("delta") DMASK; vf_assume(dl); b[i] ^= dl;
#elif MODE == 2
    { size_t from = t - (n + 16); uint8_t x[200]; vf_bytes(x, n + 16, "delta"); for (i = 0; i < n + 16; ++i) { any |= x[i]; b[from + i] ^= x[i]; } vf_assume(any); }
#elif MODE == 3
    { size_t at = 4 + strlen(P_[p].n) + 2; uint8_t x[4]; vf_bytes(x, 4, "delta"); for (i = 0; i < 4; ++i) { any |= x[i]; b[at + i] ^= x[i]; } vf_assume(any); }
#else
    { size_t k = upto(t - 1, "keep"); uint8_t *c = malloc(k ? k : 1); memcpy(c, b, k); free(b); b = c; t = k; vf_cover("cut"); }
#endif
    (void)dl; (void)any; noise_protobuf_prepare_input(&q, b, t); r = noise_load_private_key_from_buffer((Noise_PrivateKey **)&o2, &q, pass2, pl2);
#if MODE == 1
    vf_assert(r == NOISE_ERROR_MAC_FAILURE || r == NOISE_ERROR_INVALID_FORMAT || r == NOISE_ERROR_UNKNOWN_NAME || r == NOISE_ERROR_INVALID_NONCE || r == NOISE_ERROR_INVALID_LENGTH, "an altered file is refused");
#elif MODE == 4
    vf_assert(r != 0, "a shortened file is refused");
#else
    vf_assert(r == NOISE_ERROR_MAC_FAILURE || r == NOISE_ERROR_INVALID_NONCE, "the wrong passphrase or altered data is refused");
#endif
    vf_assert(o2 == 0, "no key is released"); vf_assert(vf_heap_live() == h, "nothing leaks"); free(b); vf_cover("end");
}
#elif PART == 2
/* what a well-formed file must have; genuine protection of arbitrary contents */
void harness(void)
{
    int p = choose(NP), r, r2, h, miss = choose(7); size_t n = upto(3, "len"), sl = upto(2, "saltlen"), t; uint8_t salt[2], *b; struct node *e; NoiseProtobuf q; void *o = &o, *w = 0; uint32_t it = vf_u32("iterations"), ver = 1;
    it &= 0x3fff; vf_assume(it >= 128);    /* a two-byte varint, in the form the decoder gives it */
    if (n == 3) vf_assume((p == 0 || p == 3) && sl == 2 && miss >= 5);
    pl = 2; vf_bytes(pass, pl, "pass"); vf_bytes(salt, sl, "salt"); vf_bytes(pt, n, "contents"); seal(p < NGOOD ? p : 0, pass, pl, salt, sl, it, pt, n); e = enclosing(p, salt, sl, it, ct, n + 16);
    if (miss == 0) { ver = vf_u32("version"); vf_assume(ver != 1 && ver < 256); e->v[0].u = ver; } else if (miss == 1 || miss == 2 || miss == 4) { e->v[miss].has = 0; } else if (miss == 3) e->v[3].u = 0; else if (miss == 5) { uint8_t x = vf_u8("short"); (void)x; e->v[4].n = upto(15, "short"); vf_bytes(e->v[4].b, 16, "any"); }
    t = encode(enc, 0, e, 0); b = malloc(t); memcpy(b, enc, t); h = vf_heap_live();
    vf_assert(noise_load_private_key_from_buffer(0, &q, pass, pl) == NOISE_ERROR_INVALID_PARAM && noise_load_private_key_from_buffer((Noise_PrivateKey **)&o, 0, pass, pl) == NOISE_ERROR_INVALID_PARAM && o == 0, "null"); o = &o;
    vf_assert(noise_load_private_key_from_buffer((Noise_PrivateKey **)&o, &q, 0, pl) == NOISE_ERROR_INVALID_PARAM && o == 0, "null"); o = &o;
    vf_kdf_calls = 0; memset(&q, 0, sizeof q); noise_protobuf_prepare_input(&q, b, t); r = noise_load_private_key_from_buffer((Noise_PrivateKey **)&o, &q, pass, pl);
    if (miss < 5) { vf_assert(r == NOISE_ERROR_INVALID_FORMAT && o == 0, "an incomplete file is refused"); vf_assert(vf_kdf_calls == 0, "refused early"); vf_cover("incomplete"); }
    else if (p >= NGOOD) { vf_assert(r == NOISE_ERROR_UNKNOWN_NAME && o == 0, "unknown protection is refused"); vf_cover("unknown"); }
    else if (miss == 5) { vf_assert((r == NOISE_ERROR_INVALID_LENGTH || r == NOISE_ERROR_MAC_FAILURE || r == NOISE_ERROR_INVALID_NONCE) && o == 0, "data shorter than a tag is refused"); vf_cover("short"); }
    else {
        uint8_t c[4]; memcpy(c, pt, n); memset(&q, 0, sizeof q); noise_protobuf_prepare_input(&q, c, n); r2 = r_read(&q, PRIV, 0, &w);
        vf_assert(r == r2 || (r == NOISE_ERROR_INVALID_NONCE), "the contents are read as a key"); vf_assert((o != 0) == (r == 0), "a key exactly on success"); if (r == 0) { vf_cover("ok"); r_free(PRIV, o); } else vf_cover("bad contents"); if (w) r_free(PRIV, w); }
    vf_assert(vf_heap_live() == h, "nothing leaks"); vf_assert_eq(b, enc, t, "input untouched"); free(b); vf_cover("end");
}
#elif PART == 3
/* memory running out while saving or loading */
void harness(void)
{
    struct node *d = mk(PRIV), *e; int kind = choose(3), p = choose(NGOOD), h, r; void *o = mkkey(d, kind), *o2 = &o2; size_t n, t; NoiseProtobuf q; uint8_t salt[16];
    pl = 2; vf_bytes(pass, pl, "pass"); n = encode(pt, 0, d, 0); vf_bytes(salt, 4, "fsalt"); seal(p, pass, pl, salt, 4, 1000, pt, n); e = enclosing(p, salt, 4, 1000, ct, n + 16); t = encode(enc, 0, e, 0); h = vf_heap_live(); memset(&q, 0, sizeof q);
    if (choose(2)) { noise_protobuf_prepare_output(&q, out, sizeof out); vf_oom_on = 1; r = noise_save_private_key_to_buffer(o, &q, pass, pl, P_[p].n); vf_oom_on = 0; vf_assert((r == 0) == !vf_oom_failed && (!r || r == NOISE_ERROR_NO_MEMORY), "out of memory while saving is reported"); if (r) { size_t i, bad = 0; for (i = 0; i < sizeof out; ++i) bad |= !vf_is_const(out + i, 1); vf_assert(!bad, "no key bytes left behind"); vf_cover("save failed"); } }
    else { noise_protobuf_prepare_input(&q, enc, t); vf_oom_on = 1; r = noise_load_private_key_from_buffer((Noise_PrivateKey **)&o2, &q, pass, pl); vf_oom_on = 0; if (vf_oom_failed) { vf_assert((r == NOISE_ERROR_NO_MEMORY || r == NOISE_ERROR_INVALID_NONCE) && o2 == 0, "out of memory while loading is reported"); vf_cover("load failed"); } else { vf_assert(r == 0 || r == NOISE_ERROR_INVALID_NONCE, "loaded"); if (!r) { same(d, o2); r_free(PRIV, o2); } else vf_assert(!o2, "no key"); } }
    vf_assert(vf_heap_live() == h, "nothing leaks"); r_free(PRIV, o); vf_cover("end");
}
#elif PART == 4
/* files: every operation failing */
typedef int (*ldf)(void **, const char *); typedef int (*svf)(const void *, const char *);
static int save(int k, void *o, const char *nm) { return k == 0 ? noise_save_certificate_to_file(o, nm) : k == 1 ? noise_save_certificate_chain_to_file(o, nm) : noise_save_private_key_to_file(o, nm, pass, pl, P_[0].n); }
static int load(int k, void **o, const char *nm) { return k == 0 ? noise_load_certificate_from_file((Noise_Certificate **)o, nm) : k == 1 ? noise_load_certificate_chain_from_file((Noise_CertificateChain **)o, nm) : noise_load_private_key_from_file((Noise_PrivateKey **)o, nm, pass, pl); }
void harness(void)
{
    int k = choose(3), ty = k == 0 ? CERT : k == 1 ? CHAIN : PRIV, h, r, seekless; struct node *d = mk(ty), *c; void *o, *o2 = 0, *s, *kk; size_t n; uint8_t *keep;
    pl = 2; vf_bytes(pass, pl, "pass");
    if (k == 2) o = mkkey(d, 2); else { vf_assert(r_new(ty, &o) == 0, "new"); c = d; s = o; if (k == 1) { c = d->v[0].k[0] = mk(CERT); d->v[0].nk = 1; vf_assert(CNEW(M[CHAIN].f[0].set, o, &s) == 0, "add"); } c->v[0].u = vf_u8("version"); vf_assume(c->v[0].u); CSETU(M[CERT].f[0].set, s, c->v[0].u); c->v[1].nk = 1; c->v[1].k[0] = mk(SUBJ); vf_assert(CNEW(M[CERT].f[1].set, s, &kk) == 0, "add"); setstr(c->v[1].k[0], 0, kk, 1); }
    h = vf_heap_live();
    vf_assert(save(k, 0, &f_name) == NOISE_ERROR_INVALID_PARAM && save(k, o, 0) == NOISE_ERROR_INVALID_PARAM && load(k, &o2, 0) == NOISE_ERROR_INVALID_PARAM && !o2 && f_opens == 0, "null");
    f_on = 1; vf_oom_on = choose(2); r = save(k, o, &f_name); f_on = 0; vf_oom_on = 0; vf_assert(!vf.open, "the file is closed"); vf_assert(vf_heap_live() == h, "nothing leaks"); same(d, o);
    if (vf_oom_failed) { vf_assert(r == NOISE_ERROR_NO_MEMORY && !f_opens, "out of memory is reported before the file is touched"); vf_cover("save out of memory"); r_free(ty, o); return; }
    vf_assert(r == (f_fail ? NOISE_ERROR_SYSTEM : 0), "a file that could not be completely written is reported"); if (r) { vf_cover("save failed"); r_free(ty, o); return; }
    n = file_n; keep = malloc(n); memcpy(keep, file, n); if (k < 2) { vf_assert(n == encode(enc, 0, d, 0), "size"); vf_assert_eq(file, enc, n, "the documented file form"); } h = vf_heap_live();
    switch (choose(4)) { case 0: file_n = 0; vf_assert(load(k, &o2, &f_name) == NOISE_ERROR_INVALID_FORMAT && !o2, "an empty file"); vf_cover("empty"); break;
    case 1: file_n = 65536; vf_assert(load(k, &o2, &f_name) == NOISE_ERROR_INVALID_FORMAT && !o2, "too long a file"); break;
    case 2: file_n = n; f_on = 1; vf_oom_on = choose(2); f_fail = 0; r = load(k, &o2, &f_name); f_on = 0; vf_oom_on = 0; if (vf_oom_failed && !f_fail) { vf_assert((r == NOISE_ERROR_NO_MEMORY) && !o2, "out of memory is reported"); vf_cover("load out of memory"); } else if (f_fail && !vf_oom_failed) { vf_assert((r == NOISE_ERROR_SYSTEM && !o2) || r == 0, "a failing file operation is reported"); if (r) vf_cover("load failed"); } else if (!f_fail) vf_assert(r == 0, "loaded"); if (!r) { same(d, o2); r_free(ty, o2); } else vf_assert(!o2, "no object"); break;
    default: file_n = n; vf_assert(load(k, &o2, &f_name) == 0, "loaded back"); same(d, o2); r_free(ty, o2); vf_cover("ok"); }
    vf_assert(!vf.open, "the file is closed"); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_assert_eq(file, keep, n, "the file is untouched"); free(keep); r_free(ty, o); (void)seekless; vf_cover("end");
}
#elif PART == 5
/* keys too large to protect are refused, not retried for ever */
static uint8_t big[66000], bigout[67000];
void harness(void)
{
    static const size_t sz[] = { 65400, 65519 - 5, 65535 - 5, 65535, 66000 }; int i = choose(5), r; void *o; NoiseProtobuf q; size_t n; pl = 1; vf_bytes(pass, 1, "pass");
    vf_assert(r_new(PRIV, &o) == 0 && CSET(M[PRIV].f[0].set, o, memset(big, 'a', sizeof big), sz[i]) == 0, "a key with a long name"); n = 1 + 3 + sz[i];
    memset(&q, 0, sizeof q); noise_protobuf_prepare_output(&q, bigout, sizeof bigout); r = noise_save_private_key_to_buffer(o, &q, pass, 1, P_[0].n); (void)n;
    vf_assert(r == 0 || r == NOISE_ERROR_INVALID_LENGTH, "saved, or refused for its length"); if (i == 0) vf_assert(r == 0, "saved"); else if (i == 4) vf_assert(r != 0, "refused"); r_free(PRIV, o); vf_cover("end");
}
#elif PART == 6
/* a certificate or a chain, loaded as either */
void harness(void)
{
    int n = choose(3), i, r, h, as, how; struct node *d = mk(CHAIN), *w; void *o, *c, *k, *o2 = &o2; size_t t, cut; uint8_t *b; NoiseProtobuf q; int isc = n == 0;
    vf_assert(r_new(CHAIN, &o) == 0, "new"); if (isc) n = 1; d->v[0].nk = n;
    for (i = 0; i < n; ++i) { d->v[0].k[i] = mk(CERT); vf_assert(CNEW(M[CHAIN].f[0].set, o, &c) == 0, "add"); d->v[0].k[i]->v[0].u = 1 + (vf_u8("version") & 63); CSETU(M[CERT].f[0].set, c, d->v[0].k[i]->v[0].u); if (choose(2)) { w = mk(SUBJ); d->v[0].k[i]->v[1].nk = 1; d->v[0].k[i]->v[1].k[0] = w; vf_assert(CNEW(M[CERT].f[1].set, c, &k) == 0, "add"); setstr(w, 0, k, 1); } }
    memset(&q, 0, sizeof q); noise_protobuf_prepare_output(&q, out, sizeof out);
    vf_assert((isc ? noise_save_certificate_to_buffer(CAT(M[CHAIN].f[0].at, o, 0), &q) : noise_save_certificate_chain_to_buffer(o, &q)) == 0, "saved"); t = isc ? encode(enc, 0, d->v[0].k[0], 0) : encode(enc, 0, d, 0);
    vf_assert(q.posn == sizeof out - t, "size"); vf_assert_eq(out + q.posn, enc, t, "the documented form"); r_free(CHAIN, o);
    as = choose(2); how = choose(4); cut = t; if (how == 1) { cut = upto(t - 1, "keep"); vf_assume(cut > 0); }
    b = malloc(cut + 2); memcpy(b, enc, cut); if (how == 3) { b[cut] = 0x7a; b[cut + 1] = 0; cut += 2; } h = vf_heap_live();
#define LOAD(x) (as ? noise_load_certificate_chain_from_buffer((Noise_CertificateChain **)&o2, x) : noise_load_certificate_from_buffer((Noise_Certificate **)&o2, x))
    vf_assert((as ? noise_load_certificate_chain_from_buffer(0, &q) : noise_load_certificate_from_buffer(0, &q)) == NOISE_ERROR_INVALID_PARAM, "null"); vf_assert(LOAD(0) == NOISE_ERROR_INVALID_PARAM && o2 == 0, "null"); o2 = &o2;
    memset(&q, 0, sizeof q); noise_protobuf_prepare_input(&q, b, cut); q.error = NOISE_ERROR_INVALID_LENGTH; vf_assert(LOAD(&q) == NOISE_ERROR_INVALID_LENGTH && o2 == 0, "an earlier error is kept"); o2 = &o2;
    noise_protobuf_prepare_input(&q, b, cut); vf_oom_on = how == 2; r = LOAD(&q); vf_oom_on = 0;
    if (how == 1) { size_t m = 0; int whole = 0; if (!isc && n == 2) { m = total(body(d->v[0].k[0]), 8); whole = cut == m; } if (isc) { whole = cut == 2; }
        if (whole) vf_assert(r == 0 && o2, "whole up to there"); else { vf_assert(r != 0 && o2 == 0, "a shortened certificate is refused"); vf_cover("cut"); } if (o2) r_free(as ? CHAIN : CERT, o2); }
    else if (vf_oom_failed) { vf_assert(r == NOISE_ERROR_NO_MEMORY && o2 == 0, "out of memory is reported, with no object"); vf_cover("out of memory"); }
    else if (how == 3 && !as && !isc) { vf_assert(r != 0 && o2 == 0, "anything else after the certificates of a chain is refused"); vf_cover("after"); }
    else { vf_assert(r == 0, "loaded"); same(as ? d : d->v[0].k[0], o2); r_free(as ? CHAIN : CERT, o2); vf_cover("ok"); }
    vf_assert(vf_heap_live() == h, "nothing leaks"); free(b); vf_cover("end");
}
#endif
