/* B01: what is written is read back.  -DPART=0 one field of each type, 1 sequences, nesting  */
#include <noise/protobufs.h>
#include "vf.h"
#ifndef MAXS
#define MAXS 5
#endif
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u16(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
/* the documented encoding, written forwards */
static size_t put_varint(uint8_t *o, uint64_t v) { size_t n = 0; while (v >= 0x80) { o[n++] = (uint8_t)(v | 0x80); v >>= 7; } o[n++] = (uint8_t)v; return n; }
static size_t put_fixed(uint8_t *o, uint64_t v, size_t n) { size_t i; for (i = 0; i < n; ++i) o[i] = (uint8_t)(v >> (8 * i)); return n; }
enum { INT32, UINT32, INT64, UINT64, SINT32, SINT64, SFIXED32, FIXED32, SFIXED64, FIXED64, FLOAT, DOUBLE, BOOL, STRING, BYTES, NKINDS };
static const uint8_t wire[NKINDS] = { 0, 0, 0, 0, 0, 0, 5, 5, 1, 1, 5, 1, 0, 2, 2 };
typedef struct { int kind, tag; uint64_t v; uint8_t s[MAXS + 1]; size_t n; } Field;
static float tof(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
static double tod(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint32_t ofd(float v) { uint32_t f; memcpy(&f, &v, 4); return f; }
static uint64_t odd(double v) { uint64_t f; memcpy(&f, &v, 8); return f; }
static uint64_t norm(const Field *f)    /* the value the field stands for */
{
    switch (f->kind) {
    case INT32: case SINT32: case SFIXED32: return (uint64_t)(int64_t)(int32_t)f->v;
    case UINT32: case FIXED32: case FLOAT: return (uint32_t)f->v;
    case BOOL: return ((uint32_t)f->v) != 0;
    default: return f->v;
    }
}
static size_t spec(uint8_t *o, const Field *f)
{
    size_t n = 0; uint64_t v = norm(f);
    if (f->tag) n += put_varint(o, ((uint64_t)(uint32_t)f->tag << 3) | wire[f->kind]);
    switch (f->kind) {
    case SINT32: return n + put_varint(o + n, (uint32_t)(((uint32_t)v << 1) ^ ((uint32_t)v & 0x80000000u ? 0xffffffffu : 0)));
    case SINT64: return n + put_varint(o + n, (v << 1) ^ (v >> 63 ? ~(uint64_t)0 : 0));
    case SFIXED32: case FIXED32: case FLOAT: return n + put_fixed(o + n, (uint32_t)v, 4);
    case SFIXED64: case FIXED64: case DOUBLE: return n + put_fixed(o + n, v, 8);
    case STRING: case BYTES: n += put_varint(o + n, f->n); memcpy(o + n, f->s, f->n); return n + f->n;
    default: return n + put_varint(o + n, v);
    }
}
static int wr(NoiseProtobuf *p, const Field *f)
{
    switch (f->kind) {
    case INT32: return noise_protobuf_write_int32(p, f->tag, (int32_t)f->v);
    case UINT32: return noise_protobuf_write_uint32(p, f->tag, (uint32_t)f->v);
    case INT64: return noise_protobuf_write_int64(p, f->tag, (int64_t)f->v);
    case UINT64: return noise_protobuf_write_uint64(p, f->tag, f->v);
    case SINT32: return noise_protobuf_write_sint32(p, f->tag, (int32_t)f->v);
    case SINT64: return noise_protobuf_write_sint64(p, f->tag, (int64_t)f->v);
    case SFIXED32: return noise_protobuf_write_sfixed32(p, f->tag, (int32_t)f->v);
    case FIXED32: return noise_protobuf_write_fixed32(p, f->tag, (uint32_t)f->v);
    case SFIXED64: return noise_protobuf_write_sfixed64(p, f->tag, (int64_t)f->v);
    case FIXED64: return noise_protobuf_write_fixed64(p, f->tag, f->v);
    case FLOAT: return noise_protobuf_write_float(p, f->tag, tof((uint32_t)f->v));
    case DOUBLE: return noise_protobuf_write_double(p, f->tag, tod(f->v));
    case BOOL: return noise_protobuf_write_bool(p, f->tag, (int)f->v);
    case STRING: return noise_protobuf_write_string(p, f->tag, (const char *)f->s, f->n);
    default: return noise_protobuf_write_bytes(p, f->tag, f->s, f->n);
    }
}
/* read a field of this kind and compare it with what was written */
static void rd(NoiseProtobuf *p, const Field *f)
{
    uint64_t v = norm(f), got = 0; int e = -1, b; int32_t i32; uint32_t u32; int64_t i64; float fl; double db; size_t n = 99; uint8_t s[MAXS + 1]; void *q = 0; char *c = 0; uint8_t nm[MAXS + 1];
    memset(s, 0x55, sizeof s);
    switch (f->kind) {
    case INT32: e = noise_protobuf_read_int32(p, f->tag, &i32); got = (uint64_t)(int64_t)i32; break;
    case UINT32: e = noise_protobuf_read_uint32(p, f->tag, &u32); got = u32; break;
    case INT64: e = noise_protobuf_read_int64(p, f->tag, &i64); got = (uint64_t)i64; break;
    case UINT64: e = noise_protobuf_read_uint64(p, f->tag, &got); break;
    case SINT32: e = noise_protobuf_read_sint32(p, f->tag, &i32); got = (uint64_t)(int64_t)i32; break;
    case SINT64: e = noise_protobuf_read_sint64(p, f->tag, &i64); got = (uint64_t)i64; break;
    case SFIXED32: e = noise_protobuf_read_sfixed32(p, f->tag, &i32); got = (uint64_t)(int64_t)i32; break;
    case FIXED32: e = noise_protobuf_read_fixed32(p, f->tag, &u32); got = u32; break;
    case SFIXED64: e = noise_protobuf_read_sfixed64(p, f->tag, &i64); got = (uint64_t)i64; break;
    case FIXED64: e = noise_protobuf_read_fixed64(p, f->tag, &got); break;
    case FLOAT: e = noise_protobuf_read_float(p, f->tag, &fl); got = ofd(fl); break;
    case DOUBLE: e = noise_protobuf_read_double(p, f->tag, &db); got = odd(db); break;
    case BOOL: e = noise_protobuf_read_bool(p, f->tag, &b); got = (uint64_t)b; break;
    case STRING:
        if (choose(2)) { size_t room = f->n + 1 + (size_t)choose(2); char *o = vf_obj(room, MAXS + 2); e = noise_protobuf_read_string(p, f->tag, o, room, &n); if (e == 0) memcpy(nm, o, f->n + 1); }
        else { e = noise_protobuf_read_alloc_string(p, f->tag, &c, choose(2) ? f->n : 0, &n); if (e == 0) { vf_assert(c != 0, "allocated"); memcpy(nm, c, f->n + 1); free(c); } }
        vf_assert(e == 0 && n == f->n, "string read back"); vf_assert_eq(nm, f->s, f->n, "string unchanged"); vf_assert(nm[f->n] == 0, "terminated"); return;
    default:
        if (choose(2)) { size_t room = f->n + (size_t)choose(2); uint8_t *o = vf_obj(room, MAXS + 2); e = noise_protobuf_read_bytes(p, f->tag, o, room, &n); if (e == 0) memcpy(nm, o, f->n); }
        else { e = noise_protobuf_read_alloc_bytes(p, f->tag, &q, choose(2) ? f->n : 0, &n); if (e == 0) { vf_assert(q != 0, "allocated"); memcpy(nm, q, f->n); free(q); } }
        vf_assert(e == 0 && n == f->n, "bytes read back"); vf_assert_eq(nm, f->s, f->n, "bytes unchanged"); return;
    }
    vf_assert(e == NOISE_ERROR_NONE, "the field is read back"); vf_assert(got == v, "the value is unchanged");
}
static void mk(Field *f, int kind, int anytag)
{
    uint32_t t = vf_u32("tag"); size_t i; vf_assume(anytag > 0 ? t < ((uint32_t)1 << 29) : (t == 1 || (anytag == 0 && t == 300))); if (anytag <= 0) t = t == 1 ? 1 : 300;
    f->kind = kind; f->tag = (int)t; f->v = vf_u64("v"); f->n = 0;
    if (kind >= STRING) { 
#ifdef NFIX
        f->n = NFIX;
#else
        f->n = upto(MAXS, "n");
#endif
         vf_bytes(f->s, f->n, "s"); if (kind == STRING) for (i = 0; i < f->n; ++i) vf_assume(f->s[i] && f->s[i] < 0x80); }
}
#ifndef CAP
#define CAP 200
#endif
static uint8_t want[CAP], big[CAP];
#if PART == 0
void harness(void)
{
    NoiseProtobuf p, q; Field f; size_t n, sz, cap, k; uint8_t *d, *b; int e, t;
    vf_assert(noise_protobuf_prepare_output(0, big, 5) == NOISE_ERROR_INVALID_PARAM && noise_protobuf_prepare_output(&p, 0, 5) == NOISE_ERROR_INVALID_PARAM && noise_protobuf_prepare_measure(0, 5) == NOISE_ERROR_INVALID_PARAM && noise_protobuf_prepare_input(0, big, 5) == NOISE_ERROR_INVALID_PARAM && noise_protobuf_prepare_input(&p, 0, 5) == NOISE_ERROR_INVALID_PARAM, "null");
    mk(&f, KIND, 1); n = spec(want, &f);
    /* measure: the same size with every limit that is large enough */
    sz = vf_size("limit"); vf_assert(noise_protobuf_prepare_measure(&p, sz) == 0, "measure"); e = wr(&p, &f); cap = 77;
    if (sz >= n) { vf_assert(e == 0, "fits"); vf_assert(noise_protobuf_finish_measure(&p, &cap) == 0 && cap == n, "measured exactly"); }
    else { vf_assert(e == NOISE_ERROR_INVALID_LENGTH, "does not fit"); vf_assert(noise_protobuf_finish_measure(&p, &cap) == NOISE_ERROR_INVALID_LENGTH && cap == 0, "too large for the limit"); vf_assert(wr(&p, &f) == NOISE_ERROR_INVALID_LENGTH, "the error sticks"); vf_cover("limit"); return; }
    /* write into a buffer of k bytes, less or a little more than needed */
    k = upto(n + 2, "cap"); b = vf_obj(k, CAP); vf_assert(noise_protobuf_prepare_output(&p, b, k) == 0, "output"); e = wr(&p, &f); d = (uint8_t *)1;
    if (k < n) {
        vf_assert(e == NOISE_ERROR_INVALID_LENGTH, "does not fit"); vf_assert(wr(&p, &f) == NOISE_ERROR_INVALID_LENGTH, "the error sticks");
        vf_assert((choose(2) ? noise_protobuf_finish_output(&p, &d, &sz) : noise_protobuf_finish_output_shift(&p, &d, &sz)) == NOISE_ERROR_INVALID_LENGTH && d == 0 && sz == 0, "nothing returned"); vf_cover("short"); return;
    }
    vf_assert(e == 0, "fits");
    if (choose(2)) { vf_assert(noise_protobuf_finish_output_shift(&p, &d, &sz) == 0 && d == b && sz == n, "shifted"); }
    else vf_assert(noise_protobuf_finish_output(&p, &d, &sz) == 0 && d == b + (k - n) && sz == n, "aligned with the end");
    vf_assert_eq(d, want, n, "the protobuf encoding"); memcpy(big, d, n);
    /* read it back */
    b = vf_obj(n, CAP); memcpy(b, big, n); noise_protobuf_prepare_input(&q, b, n);
    if (f.tag) {
        vf_assert(noise_protobuf_peek_tag(&q) == f.tag, "tag peeked");
        vf_assert(noise_protobuf_peek_size(&q) == (wire[f.kind] == 2 ? f.n : 0), "size peeked");
        t = choose(4);
        if (t == 1) { vf_assert(noise_protobuf_read_skip(&q) == 0 && noise_protobuf_finish_input(&q) == 0, "skipped exactly"); vf_cover("skip"); return; }
        if (t == 2) { int other = vf_int("other"); vf_assume(other > 0 && other != f.tag); f.tag = other; uint64_t u; vf_assert((wire[f.kind] == 0 ? noise_protobuf_read_uint64(&q, other, &u) : wire[f.kind] == 1 ? noise_protobuf_read_fixed64(&q, other, &u) : wire[f.kind] == 5 ? noise_protobuf_read_fixed32(&q, other, (uint32_t *)&u) : noise_protobuf_read_bytes(&q, other, want, CAP, &sz)) == NOISE_ERROR_INVALID_FORMAT && noise_protobuf_finish_input(&q) == NOISE_ERROR_INVALID_FORMAT, "another tag refused"); vf_cover("wrong tag"); return; }
        if (t == 3) { uint64_t u; e = wire[f.kind] == 0 ? noise_protobuf_read_fixed32(&q, f.tag, (uint32_t *)&u) : noise_protobuf_read_uint64(&q, f.tag, &u); vf_assert(e == NOISE_ERROR_INVALID_FORMAT && noise_protobuf_finish_input(&q) == NOISE_ERROR_INVALID_FORMAT, "another wire type refused"); vf_cover("wrong type"); return; }
    }
    rd(&q, &f); vf_assert(noise_protobuf_finish_input(&q) == 0, "everything consumed"); vf_assert_eq(b, big, n, "reading changes nothing");
    if (f.tag) vf_cover("tagged"); else vf_cover("untagged");
    vf_cover("end");
}
#else
/* outer element { field 0, inner element { field 1 }, field 2 } with every combination of types, and tag or no tag on the outer element */
void harness(void)
{
    NoiseProtobuf p, q; Field f[3]; size_t n = 0, in, m, sz, end1, end2, k; uint8_t *d, *b, tmp[CAP]; int i, outer, inner, e, empty;
    for (i = 0; i < 3; ++i) mk(&f[i], i == FIXK ? KIND : i == FIXK + 1 || (FIXK == 2 && i == 0) ? BYTES : FIXED32, i == FIXK ? 0 : -1);
    outer = choose(2) ? 5 : 0; inner = choose(2) ? 15 : 16; empty = choose(2);
    n = spec(tmp, &f[0]); in = empty ? 0 : spec(want, &f[1]); n += put_varint(tmp + n, ((uint64_t)inner << 3) | 2); n += put_varint(tmp + n, in); memcpy(tmp + n, want, in); n += in; n += spec(tmp + n, &f[2]);
    m = 0; if (outer) { m += put_varint(want, ((uint64_t)outer << 3) | 2); m += put_varint(want + m, n); } memcpy(want + m, tmp, n); n += m;
    for (i = 0; i < 2; ++i) {
        if (i == 0) noise_protobuf_prepare_measure(&p, n); else { b = vf_obj(n + 1, CAP); noise_protobuf_prepare_output(&p, b, n + 1); }
        vf_assert(noise_protobuf_write_end_element(&p, &end1) == 0 && wr(&p, &f[2]) == 0 && noise_protobuf_write_end_element(&p, &end2) == 0, "end of elements");
        if (!empty) vf_assert(wr(&p, &f[1]) == 0, "inner field");
        vf_assert(noise_protobuf_write_start_element(&p, inner, end2) == 0 && wr(&p, &f[0]) == 0 && noise_protobuf_write_start_element(&p, outer, end1) == 0, "start of elements");
        if (i == 0) vf_assert(noise_protobuf_finish_measure(&p, &sz) == 0 && sz == n, "measured exactly"); else vf_assert(noise_protobuf_finish_output(&p, &d, &sz) == 0 && sz == n, "written");
    }
    vf_assert_eq(d, want, n, "the protobuf encoding");
    b = vf_obj(n, CAP); memcpy(b, want, n); noise_protobuf_prepare_input(&q, b, n);
    if (outer) { vf_assert(noise_protobuf_peek_tag(&q) == outer && noise_protobuf_peek_size(&q) == n - m, "outer peeked"); if (choose(2)) { vf_assert(noise_protobuf_read_skip(&q) == 0 && noise_protobuf_finish_input(&q) == 0, "outer skipped"); vf_cover("skipped"); return; } }
    vf_assert(noise_protobuf_read_start_element(&q, outer, &end1) == 0 && !noise_protobuf_read_at_end_element(&q, end1), "outer element"); rd(&q, &f[0]);
    vf_assert(noise_protobuf_peek_tag(&q) == inner && noise_protobuf_peek_size(&q) == in, "inner peeked");
    k = choose(3);
    if (k == 0) { vf_assert(noise_protobuf_read_skip(&q) == 0, "inner skipped"); vf_cover("inner skipped"); }
    else {
        vf_assert(noise_protobuf_read_start_element(&q, inner, &end2) == 0, "inner element"); vf_assert(noise_protobuf_read_at_end_element(&q, end2) == empty, "end of the inner element");
        if (k == 1 && !empty) { vf_assert(noise_protobuf_read_end_element(&q, end2) == NOISE_ERROR_INVALID_FORMAT, "element not at its end"); e = noise_protobuf_finish_input(&q); vf_assert(e == NOISE_ERROR_INVALID_FORMAT, "sticky"); vf_cover("early end"); return; }
        if (!empty) { rd(&q, &f[1]); vf_cover("inner field"); }
        vf_assert(noise_protobuf_read_at_end_element(&q, end2) && noise_protobuf_read_end_element(&q, end2) == 0, "inner element ends");
    }
    vf_assert(!noise_protobuf_read_at_end_element(&q, end1), "outer element goes on"); if (choose(2)) { vf_assert(noise_protobuf_finish_input(&q) == NOISE_ERROR_INVALID_FORMAT, "trailing data refused"); vf_cover("trailing"); return; }
    rd(&q, &f[2]); vf_assert(noise_protobuf_read_at_end_element(&q, end1) && noise_protobuf_read_end_element(&q, end1) == 0 && noise_protobuf_finish_input(&q) == 0, "outer element ends");
    vf_cover("end");
}
#endif
