/* B03: certificate and key objects.  -DPART -DTYPE */
#define VF_OOM_MAIN
#include "vf_oom.h"
#include <noise/keys/certificate.h>
#include "vf.h"
#ifndef MAXS
#define MAXS 1
#endif
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
#ifndef MAXFAIL
#define MAXFAIL 1
#endif
int vf_oom_pick(void) { return vf_oom_failed < MAXFAIL && choose(2); }
#include "cert_schema.h"
#if PART == 0
/* build, write, read back */
void harness(void)
{
    struct node *d = mk(TYPE); void *o = 0, *o2 = 0; int h = vf_heap_live(), tag = choose(2) ? TAG : 0, i, live; size_t n, k, len; NoiseProtobuf p; uint8_t *b, *dat;
    vf_assert(r_new(TYPE, 0) == NOISE_ERROR_INVALID_PARAM && r_free(TYPE, 0) == NOISE_ERROR_INVALID_PARAM && r_read(&p, TYPE, 0, 0) == NOISE_ERROR_INVALID_PARAM, "null");
    vf_assert(r_new(TYPE, &o) == 0, "new"); same(d, o); fill(d, o); same(d, o); live = vf_heap_live();
    n = encode(enc, 0, d, tag);
    vf_assert(r_write(0, TYPE, tag, o) == NOISE_ERROR_INVALID_PARAM && r_write(&p, TYPE, tag, 0) == NOISE_ERROR_INVALID_PARAM, "null");
    noise_protobuf_prepare_measure(&p, 4096); vf_assert(r_write(&p, TYPE, tag, o) == 0 && noise_protobuf_finish_measure(&p, &len) == 0 && len == n, "measured size");
    b = malloc(n + 1); noise_protobuf_prepare_output(&p, b, n); vf_assert(r_write(&p, TYPE, tag, o) == 0 && noise_protobuf_finish_output(&p, &dat, &len) == 0 && len == n, "written into exactly the room needed"); vf_assert_eq(dat, enc, n, "the documented encoding");
    if (n) { noise_protobuf_prepare_output(&p, enc2, n - 1); vf_assert(r_write(&p, TYPE, tag, o) == NOISE_ERROR_INVALID_LENGTH && noise_protobuf_finish_output(&p, &dat, &len) == NOISE_ERROR_INVALID_LENGTH, "too little room is reported"); vf_cover("short"); }
    same(d, o);
    noise_protobuf_prepare_input(&p, b, n); vf_assert(r_read(&p, TYPE, tag, &o2) == 0 && noise_protobuf_finish_input(&p) == 0, "read back"); same(d, o2); { void *z = o; vf_assert(r_read(0, TYPE, tag, &z) == NOISE_ERROR_INVALID_PARAM && z == 0, "null"); }
    free(b);
    /* clearing a field, or replacing it, releases it */
    i = choose(M[TYPE].nf); { const struct fld *f = &M[TYPE].f[i]; vf_assert(CI(f->clear, 0) == NOISE_ERROR_INVALID_PARAM && CI(f->clear, o) == 0, "clear"); d->v[i].has = 0; d->v[i].u = 0; d->v[i].nk = 0; d->v[i].n = 0; same(d, o);
        if (f->kind == STR || f->kind == BYT) { setstr(d, i, o, 1); same(d, o); setstr(d, i, o, 2); same(d, o); vf_assert(CSET(f->set, 0, "x", 1) == NOISE_ERROR_INVALID_PARAM && CI(f->has, 0) == 0 && CP(f->get, 0) == 0 && CZ(f->size, 0) == 0, "null"); }
        else if (f->kind == U32) vf_assert(CSETU(f->set, 0, 1) == NOISE_ERROR_INVALID_PARAM && CI(f->has, 0) == 0 && CU(f->get, 0) == 0, "null");
        else if (f->kind == SUB) { void *q; d->v[i].k[0] = mk(f->sub); d->v[i].nk = 1; vf_assert(CNEW(f->set, o, &q) == 0 && q, "replace"); same(d, o); vf_assert(CNEW(f->set, o, &q) == 0 && q, "replace"); same(d, o); vf_assert(CNEW(f->set, o, 0) == NOISE_ERROR_INVALID_PARAM, "null"); vf_assert(CNEW(f->set, 0, &q) == NOISE_ERROR_INVALID_PARAM && q == 0 && CP(f->get, 0) == 0 && CI(f->has, 0) == 0, "null"); }
        else { void *q = o; vf_assert(CNEW(f->set, 0, &q) == NOISE_ERROR_INVALID_PARAM && q == 0 && CI(f->has, 0) == 0 && CZ(f->size, 0) == 0 && CAT(f->at, 0, 0) == 0 && CNEW(f->set, o, 0) == NOISE_ERROR_INVALID_PARAM && CINS(f->ins, o, 0, 0) == NOISE_ERROR_INVALID_PARAM, "null"); same(d, o); } }
    vf_assert(r_free(TYPE, o) == 0 && r_free(TYPE, o2) == 0, "freed"); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("end");
}
#elif PART == 1
/* arbitrary bytes against a reference reader */
static const uint8_t *D; static size_t NB, pos; static int bad;
static uint64_t varint(void) { uint64_t v = 0; int i; for (i = 0; i < 10; ++i) { uint8_t c; if (pos >= NB) { bad = 1; return 0; } c = D[pos++]; v |= (uint64_t)(c & 127) << (7 * i); if (c < 128) return v; } bad = 1; return 0; }
static int in(uint8_t c, int lo, int hi) { return (c >= lo) & (c <= hi); }
static int utf8(const uint8_t *s, size_t n) { size_t i = 0; while (i < n) { uint8_t a = s[i]; size_t l = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4; if (n - i < l) return 0; if (l == 1) { if (!a) return 0; } else if (l == 2) { if (!in(a, 0xc2, 0xdf) || !in(s[i + 1], 0x80, 0xbf)) return 0; } else if (l == 3) { if (!in(s[i + 1], a == 0xe0 ? 0xa0 : 0x80, a == 0xed ? 0x9f : 0xbf) || !in(s[i + 2], 0x80, 0xbf)) return 0; } else if (!in(a, 0xf0, 0xf4) || !in(s[i + 1], a == 0xf0 ? 0x90 : 0x80, a == 0xf4 ? 0x8f : 0xbf) || !in(s[i + 2], 0x80, 0xbf) || !in(s[i + 3], 0x80, 0xbf)) return 0; i += l; } return 1; }
static void parse(struct node *d, size_t end)
{
    while (!bad && pos < end) {
        size_t k0 = pos; uint64_t t = varint(), n; int w = (int)(t & 7), i; uint64_t tag = t >> 3; if (bad) return; (void)k0;
        for (i = 0; i < M[d->t].nf; ++i) if (tag == (uint64_t)M[d->t].f[i].tag) break;
        if (i < M[d->t].nf) { const struct fld *f = &M[d->t].f[i];
            if (w != (f->kind == U32 ? 0 : 2)) { bad = 1; return; }
            n = varint(); if (bad) return;
            if (f->kind == U32) { d->v[i].u = (uint32_t)n; continue; }
            if (n > NB - pos) { bad = 1; return; }
            if (f->kind == STR || f->kind == BYT) { if (f->kind == STR && !utf8(D + pos, (size_t)n)) { bad = 1; return; } d->v[i].has = 1; d->v[i].n = (size_t)n; memcpy(d->v[i].b, D + pos, (size_t)n); pos += (size_t)n; }
            else { struct node *k = mk(f->sub); if (f->kind == SUB) d->v[i].nk = 0; d->v[i].k[d->v[i].nk++] = k; parse(k, pos + (size_t)n); }
        } else if (w == 0) varint(); else if (w == 1 || w == 5) { n = w == 1 ? 8 : 4; if (NB - pos < n) bad = 1; else pos += n; } else if (w == 2) { n = varint(); if (bad) return; if (n > NB - pos) bad = 1; else pos += (size_t)n; } else bad = 1;
    }
    if (pos != end) bad = 1;
}
void harness(void)
{
#ifdef NVAR
    size_t n = upto(NFIX, "n");
#else
    size_t n = NFIX;
#endif
    uint8_t *b; void *o = &o; NoiseProtobuf p; int e, tag = 0, h, kind; struct node *d = mk(TYPE); size_t end;
    b = vf_obj(n, NFIX); vf_bytes(b, n, "b"); memcpy(enc, b, n); h = vf_heap_live(); (void)kind;
#ifdef PRE
    { static const uint8_t pre[] = { PRE }; memcpy(b, pre, sizeof pre); memcpy(enc, pre, sizeof pre); }  /* a fixed beginning, anything after it */
#endif
#ifdef NEST
    /* the element itself tagged: header fixed, the declared length anything */
    b[0] = enc[0] = (TAG << 3) | 2; vf_assume(b[1] < 128); tag = TAG;
#endif
    noise_protobuf_prepare_input(&p, b, n); e = r_read(&p, TYPE, tag, &o);
    D = enc; NB = n; pos = 0; if (tag) { varint(); end = (size_t)varint(); if (end > NB - pos) { bad = 1; } end += pos; } else end = NB;
    if (!bad) parse(d, end);
    vf_assert((e == 0) == !bad, "accepted exactly when well formed");
    if (bad) { vf_assert(o == 0, "no object on error"); vf_assert(e == NOISE_ERROR_INVALID_FORMAT && noise_protobuf_finish_input(&p) == e, "the error is reported"); vf_cover("bad"); }
    else { same(d, o); vf_assert(p.posn == pos, "consumed exactly"); vf_assert(noise_protobuf_finish_input(&p) == (pos == n ? 0 : NOISE_ERROR_INVALID_FORMAT), "trailing data"); r_free(TYPE, o); vf_cover("ok"); }
    vf_assert_eq(b, enc, n, "input untouched"); vf_assert(vf_heap_live() == h, "nothing leaks");
}
#elif PART == 2
/* allocations failing while reading a valid object, and in each call that allocates */
static void full(struct node *d, int depth)
{
    int i; for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i]; if (f->kind == U32) d->v[i].u = 5 + i; else if (f->kind == STR || f->kind == BYT) { d->v[i].has = 1; d->v[i].n = 1; d->v[i].b[0] = (uint8_t)('a' + i); } else if (depth) { d->v[i].nk = f->kind == REP ? REPN : 1; { int j; for (j = 0; j < d->v[i].nk; ++j) { d->v[i].k[j] = mk(f->sub); full(d->v[i].k[j], j ? 0 : depth - 1); } } } }
}
void harness(void)
{
    struct node *d = mk(TYPE); size_t n; uint8_t *b; NoiseProtobuf p; void *o = 0; int e, h, tag = choose(2) ? TAG : 0;
    full(d, DEPTH); n = encode(enc, 0, d, tag); b = malloc(n + 1); memcpy(b, enc, n); h = vf_heap_live();
    noise_protobuf_prepare_input(&p, b, n); vf_oom_on = 1; e = r_read(&p, TYPE, tag, &o); vf_oom_on = 0;
    if (vf_oom_failed) { vf_assert(e == NOISE_ERROR_NO_MEMORY && o == 0, "out of memory while reading is reported and yields no object"); vf_assert(p.posn <= p.size, "stays inside"); vf_assert(noise_protobuf_finish_input(&p) == NOISE_ERROR_NO_MEMORY, "and it sticks"); vf_cover("failed"); }
    else { vf_assert(e == 0, "read"); same(d, o); r_free(TYPE, o); vf_cover("end"); }
    vf_assert(vf_heap_live() == h, "nothing leaks"); vf_assert_eq(b, enc, n, "input untouched");
    /* with memory back the same bytes are read */
    noise_protobuf_prepare_input(&p, b, n); vf_assert(r_read(&p, TYPE, tag, &o) == 0, "a later attempt works"); same(d, o); r_free(TYPE, o); vf_assert(vf_heap_live() == h, "nothing leaks");
}
#elif PART == 3
/* building: any allocation failing; growing and inserting */
void harness(void)
{
    struct node *d = mk(TYPE), *t; void *o = 0, *k; int h = vf_heap_live(), e, i, j, m, live, step;
    vf_oom_on = 1; vf_oom_failed = 0; e = r_new(TYPE, &o); vf_oom_on = 0; if (e) { vf_assert(e == NOISE_ERROR_NO_MEMORY && !o && vf_oom_failed && vf_heap_live() == h, "out of memory creating an object"); vf_cover("failed"); return; } vf_assert(!vf_oom_failed, "a failure is reported");
    i = choose(M[TYPE].nf); { const struct fld *f = &M[TYPE].f[i];
        for (step = 0; step < STEPS; ++step) { int rep = f->kind == REP ? choose(step >= 2 && step < STEPS - 1 ? 1 : 2) : 0; uint8_t v = vf_u8("v"); int at = 0; vf_assume(v >= 1 && v < 128); live = vf_heap_live(); vf_oom_failed = 0; k = 0; m = 0;
            if (f->kind == U32) { vf_assert(CSETU(f->set, o, v) == 0, "set"); d->v[i].u = v; continue; }
            if (f->kind == STR || f->kind == BYT) { vf_oom_on = 1; e = CSET(f->set, o, &v, 1); vf_oom_on = 0; if (e) { d->v[i].has = 0; d->v[i].n = 0; } else { d->v[i].has = 1; d->v[i].n = 1; d->v[i].b[0] = v; } }
            else if (f->kind == SUB) { vf_oom_on = 1; e = CNEW(f->set, o, &k); vf_oom_on = 0; if (!e) { d->v[i].nk = 1; d->v[i].k[0] = mk(f->sub); } }
            else if (rep == 0) { vf_oom_on = 1; e = CNEW(f->set, o, &k); vf_oom_on = 0; if (!e) { at = d->v[i].nk; d->v[i].k[d->v[i].nk++] = mk(f->sub); } }
            else { vf_assert(r_new(f->sub, &k) == 0, "new"); at = (int)upto(d->v[i].nk + (d->v[i].nk < 3), "at"); vf_oom_on = 1; e = CINS(f->ins, o, at, k); vf_oom_on = 0;
                if (e) { vf_assert(vf_heap_live() == live + 1, "not taken over"); r_free(f->sub, k); k = 0; } else { if (at > d->v[i].nk) at = d->v[i].nk; for (j = d->v[i].nk; j > at; --j) d->v[i].k[j] = d->v[i].k[j - 1]; d->v[i].k[at] = mk(f->sub); ++d->v[i].nk; } }
            vf_assert((e != 0) == (vf_oom_failed != 0) && (!e || e == NOISE_ERROR_NO_MEMORY), "out of memory is reported"); if (e) { vf_assert(!k, "no object handed out"); vf_assert(vf_heap_live() <= live, "nothing leaks"); vf_cover("failed"); }
            if (!e && (f->kind == REP || f->kind == SUB)) { t = d->v[i].k[at]; vf_assert((f->kind == SUB ? CP(f->get, o) : CAT(f->at, o, at)) == k, "held where asked");
                for (j = 0; j < M[f->sub].nf; ++j) { const struct fld *g = &M[f->sub].f[j]; if (g->kind == U32) { t->v[j].u = v; CSETU(g->set, k, v); break; } if (g->kind == STR || g->kind == BYT) { t->v[j].has = 1; t->v[j].n = 1; t->v[j].b[0] = v; CSET(g->set, k, &v, 1); break; } } }
            same(d, o); } }
    r_free(TYPE, o); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("end");
}
#else
/* string, byte and value arrays of the protobuf library */
void harness(void)
{
    char **sa = 0; void **ba = 0; size_t *la = 0, cnt = 0, max = 0, i, len[8]; uint8_t val[8][2]; int h = vf_heap_live(), str = choose(2), e, live, step; uint32_t *va = 0, mv[8];
    if (choose(2)) {    /* plain values, added or inserted */
        for (step = 0; step < STEPS; ++step) { uint32_t v = vf_u32("v"); size_t at = step < 2 || step >= STEPS - 2 ? upto(cnt + 1, "at") : cnt; int ins = at <= cnt; live = vf_heap_live(); vf_oom_failed = 0; vf_oom_on = 1; e = ins ? noise_protobuf_insert_into_array((void **)&va, &cnt, &max, at, &v, 4) : noise_protobuf_add_to_array((void **)&va, &cnt, &max, &v, 4); vf_oom_on = 0; if (at > (size_t)step) at = step;
            if (e) { vf_assert(e == NOISE_ERROR_NO_MEMORY && vf_oom_failed && vf_heap_live() == live && cnt == (size_t)step, "unchanged when out of memory"); for (i = 0; i < cnt; ++i) vf_assert(va[i] == mv[i], "unchanged"); vf_cover("failed"); break; }
            for (i = step; i > at; --i) mv[i] = mv[i - 1]; mv[at] = v; vf_assert(!vf_oom_failed && cnt == (size_t)step + 1 && cnt <= max, "counted"); for (i = 0; i < cnt; ++i) vf_assert(va[i] == mv[i], "values in order"); }
        free(va); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("end"); return; }
    for (step = 0; step < STEPS; ++step) { vf_bytes(val[step], 2, "val"); len[step] = step < 2 || step > 3 ? upto(2, "len") : 1; live = vf_heap_live(); vf_oom_failed = 0; vf_oom_on = 1; e = str ? noise_protobuf_add_to_string_array(&sa, &la, &cnt, &max, (char *)val[step], len[step]) : noise_protobuf_add_to_bytes_array(&ba, &la, &cnt, &max, val[step], len[step]); vf_oom_on = 0;
        if (e) { vf_assert(e == NOISE_ERROR_NO_MEMORY && vf_oom_failed && vf_heap_live() == live && cnt == (size_t)step, "unchanged when out of memory"); vf_cover("failed"); break; }
        vf_assert(!vf_oom_failed && cnt == (size_t)step + 1 && cnt <= max, "counted"); }
    vf_assert((str ? noise_protobuf_add_to_string_array(&sa, &la, &cnt, &max, 0, 1) : noise_protobuf_add_to_bytes_array(&ba, &la, &cnt, &max, 0, 1)) == NOISE_ERROR_INVALID_PARAM, "null");
    for (i = 0; i < cnt; ++i) { uint8_t *q = str ? (uint8_t *)sa[i] : ba[i]; vf_assert(la[i] == len[i], "length kept"); vf_assert_eq(q, val[i], len[i], "contents kept"); if (str) vf_assert(q[len[i]] == 0, "terminated"); free(q); }
    free(sa); free(ba); free(la); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("end");
}
#endif
