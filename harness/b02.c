/* B02: one reader call from any state of a reader over arbitrary bytes.  -DOP -DN */
#include <noise/protobufs.h>
#include "vf.h"
#ifndef ROOM
#define ROOM 2
#endif
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
enum { INT32, UINT32, INT64, UINT64, SINT32, SINT64, SFIXED32, FIXED32, SFIXED64, FIXED64, FLOAT, DOUBLE, BOOL, STRING, BYTES, ASTRING, ABYTES, START, SKIP, PEEKTAG, PEEKSIZE, END, ATEND, STOP };
static const uint8_t wire[] = { 0, 0, 0, 0, 0, 0, 5, 5, 1, 1, 5, 1, 0, 2, 2, 2, 2, 2 };
/* reference reader: the documented format.  pos/err are the state; nothing moves once err is set */
static struct { const uint8_t *d; size_t n, pos; int err; } m;
static int bad(void) { m.err = NOISE_ERROR_INVALID_FORMAT; return 0; }
static int varint(uint64_t *v) { int i; *v = 0; for (i = 0; i < 10; ++i) { uint8_t c; if (m.pos >= m.n) return bad(); c = m.d[m.pos++]; *v |= (uint64_t)(c & 0x7f) << (7 * i); if (c < 0x80) return 1; } return bad(); }
static int tagged(int tag, int w) { uint64_t t; if (tag == 0) return 1; if (tag < 0) return bad(); if (!varint(&t)) return 0; if (t != (((uint64_t)tag << 3) | (uint64_t)w)) return bad(); return 1; }
static int fixed(size_t k, uint64_t *v) { size_t i; *v = 0; if (m.n - m.pos < k) return bad(); for (i = 0; i < k; ++i) *v |= (uint64_t)m.d[m.pos + i] << (8 * i); m.pos += k; return 1; }
static int in(uint8_t c, int lo, int hi) { return (c >= lo) & (c <= hi); }
/* well-formed UTF-8 (Unicode table 3-7) without NUL */
static int utf8(const uint8_t *s, size_t n)
{
    size_t i = 0;
    while (i < n) {
        uint8_t a = s[i]; size_t l = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
        if (n - i < l) return 0;
        if (l == 1) { if (!a) return 0; }
        else if (l == 2) { if (!in(a, 0xc2, 0xdf) || !in(s[i + 1], 0x80, 0xbf)) return 0; }
        else if (l == 3) { if (!in(s[i + 1], a == 0xe0 ? 0xa0 : 0x80, a == 0xed ? 0x9f : 0xbf) || !in(s[i + 2], 0x80, 0xbf)) return 0; }
        else if (!in(a, 0xf0, 0xf4) || !in(s[i + 1], a == 0xf0 ? 0x90 : 0x80, a == 0xf4 ? 0x8f : 0xbf) || !in(s[i + 2], 0x80, 0xbf) || !in(s[i + 3], 0x80, 0xbf)) return 0;
        i += l;
    }
    return 1;
}
static uint8_t old[N + 8], out[N + 8];
void harness(void)
{
    NoiseProtobuf p; size_t n = upto(N, "n"), pos = upto(n < 2 ? n : 2, "pos"), end = 0, got = 0, room; uint8_t *b = vf_obj(n, N); int op = OP, e = 0, tag = vf_int("tag"), ok, bo; uint64_t v = 0, sz = 0, u = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; float fl; double db; void *q = 0; char *c = 0; uint8_t *o;
#ifdef UTF
    /* text only: no tag, one length byte */
    vf_assume(tag == 0 && n == N && pos == 0);
#endif
    vf_bytes(b, n, "b");
#ifdef UTF
    vf_assume(b[0] < N);
#endif
    memcpy(old, b, n);
    vf_assert(noise_protobuf_prepare_input(&p, b, n) == 0, "prepared"); p.posn = pos; m.d = old; m.n = n; m.pos = pos; m.err = 0;
#ifndef UTF
    if (choose(2)) {    /* an earlier error */
        int e0 = choose(2) ? NOISE_ERROR_INVALID_FORMAT : NOISE_ERROR_NO_MEMORY; p.error = e0; vf_cover("sticky");
        out[0] = 7;
        switch (op) {
        case INT32: e = noise_protobuf_read_int32(&p, tag, &i32); break; case UINT32: e = noise_protobuf_read_uint32(&p, tag, &u32); break; case INT64: e = noise_protobuf_read_int64(&p, tag, &i64); break; case UINT64: e = noise_protobuf_read_uint64(&p, tag, &u); break;
        case SINT32: e = noise_protobuf_read_sint32(&p, tag, &i32); break; case SINT64: e = noise_protobuf_read_sint64(&p, tag, &i64); break; case SFIXED32: e = noise_protobuf_read_sfixed32(&p, tag, &i32); break; case FIXED32: e = noise_protobuf_read_fixed32(&p, tag, &u32); break;
        case SFIXED64: e = noise_protobuf_read_sfixed64(&p, tag, &i64); break; case FIXED64: e = noise_protobuf_read_fixed64(&p, tag, &u); break; case FLOAT: e = noise_protobuf_read_float(&p, tag, &fl); break; case DOUBLE: e = noise_protobuf_read_double(&p, tag, &db); break;
        case BOOL: e = noise_protobuf_read_bool(&p, tag, &bo); break; case STRING: e = noise_protobuf_read_string(&p, tag, (char *)out, 4, &got); break; case BYTES: e = noise_protobuf_read_bytes(&p, tag, out, 4, &got); break;
        case ASTRING: e = noise_protobuf_read_alloc_string(&p, tag, &c, 0, &got); break; case ABYTES: e = noise_protobuf_read_alloc_bytes(&p, tag, &q, 0, &got); break; case START: e = noise_protobuf_read_start_element(&p, tag, &end); break;
        case SKIP: e = noise_protobuf_read_skip(&p); break; case PEEKTAG: vf_assert(noise_protobuf_peek_tag(&p) == 0, "nothing to peek at"); e = e0; break; case PEEKSIZE: vf_assert(noise_protobuf_peek_size(&p) == 0, "nothing to peek at"); e = e0; break;
        case END: e = noise_protobuf_read_end_element(&p, vf_size("end")); break; case ATEND: vf_assert(noise_protobuf_read_at_end_element(&p, vf_size("end")) == 1, "reading loops end on error"); e = e0; break; default: e = noise_protobuf_read_stop(&p); break;
        }
        vf_assert(e == e0 && p.error == e0 && p.posn == pos, "an earlier error sticks and nothing is read"); vf_assert(noise_protobuf_finish_input(&p) == e0 && !q && !c && got == 0, "reported at the end"); return;
    }
#endif
    switch (op) {
    case PEEKTAG: e = noise_protobuf_peek_tag(&p); vf_assert(p.posn == pos && p.error == 0, "peeking does not consume"); ok = varint(&v); v >>= 3; vf_assert(e == (ok && v && v < ((uint64_t)1 << 29) ? (int)v : 0), "the next tag"); if (e) vf_cover("ok"); else vf_cover("bad"); return;
    case PEEKSIZE: got = noise_protobuf_peek_size(&p); vf_assert(p.posn == pos && p.error == 0, "peeking does not consume"); ok = varint(&v) && (v & 7) == 2 && varint(&sz); vf_assert(got == (ok ? sz : 0), "the next size"); if (ok) vf_cover("ok"); else vf_cover("bad"); return;
    case END: end = vf_size("end"); e = noise_protobuf_read_end_element(&p, end); ok = end == pos || bad(); break;
    case ATEND: end = vf_size("end"); vf_assert(noise_protobuf_read_at_end_element(&p, end) == (pos >= end) && noise_protobuf_read_at_end_element(0, end) == 1, "at the end of an element"); vf_assert(p.error == 0 && p.posn == pos, "nothing consumed"); if (pos >= end) vf_cover("ok"); else vf_cover("bad"); return;
    case STOP: e = noise_protobuf_read_stop(&p); ok = bad(); vf_assert(noise_protobuf_read_stop(0) == NOISE_ERROR_INVALID_PARAM, "null"); vf_cover("ok"); break;
    case SKIP: vf_assert(noise_protobuf_read_skip(0) == NOISE_ERROR_INVALID_PARAM, "null"); e = noise_protobuf_read_skip(&p);
        ok = varint(&v); if (ok) { v &= 7; if (v == 0) ok = varint(&u); else if (v == 1) ok = fixed(8, &u); else if (v == 5) ok = fixed(4, &u); else if (v == 2) { ok = varint(&sz); if (ok) { if (sz > m.n - m.pos) ok = bad(); else m.pos += (size_t)sz; } } else ok = bad(); } break;
    case START: vf_assert(noise_protobuf_read_start_element(0, tag, &end) == NOISE_ERROR_INVALID_PARAM && noise_protobuf_read_start_element(&p, tag, 0) == NOISE_ERROR_INVALID_PARAM, "null"); e = noise_protobuf_read_start_element(&p, tag, &end);
        ok = tagged(tag, 2); if (ok && tag) { ok = varint(&sz); if (ok && sz > m.n - m.pos) ok = bad(); }
        if (ok) vf_assert(end == (tag ? m.pos + sz : m.n), "the end of the element"); break;
    case STRING: case ASTRING: case BYTES: case ABYTES: {
        int str = op == STRING || op == ASTRING, al = op == ASTRING || op == ABYTES; size_t lim; int h = vf_heap_live();
        
#ifdef UTF
        room = ROOM;
#else
        room = upto(ROOM, "room");
#endif

        vf_assert((str ? (al ? noise_protobuf_read_alloc_string(0, tag, &c, 4, &got) : noise_protobuf_read_string(0, tag, (char *)out, 4, &got)) : (al ? noise_protobuf_read_alloc_bytes(0, tag, &q, 4, &got) : noise_protobuf_read_bytes(0, tag, out, 4, &got))) == NOISE_ERROR_INVALID_PARAM, "null");
        o = vf_obj(room, ROOM); got = 99;
        if (op == STRING) { if (!room) { vf_assert(noise_protobuf_read_string(&p, tag, (char *)o, 0, &got) == NOISE_ERROR_INVALID_PARAM, "no room at all"); return; } e = noise_protobuf_read_string(&p, tag, (char *)o, room, choose(2) ? &got : 0); lim = room - 1; }
        else if (op == BYTES) { e = noise_protobuf_read_bytes(&p, tag, o, room, &got); lim = room; }
        else { if (str) e = noise_protobuf_read_alloc_string(&p, tag, &c, room, choose(2) ? &got : 0); else e = noise_protobuf_read_alloc_bytes(&p, tag, &q, room, &got); lim = room ? room : N; o = str ? (uint8_t *)c : q; }
        ok = tagged(tag, 2) && varint(&sz); if (ok && (sz > lim || sz > m.n - m.pos)) ok = bad(); if (ok && str && !utf8(m.d + m.pos, (size_t)sz)) ok = bad();
        vf_assert(e == (ok ? 0 : NOISE_ERROR_INVALID_FORMAT) && p.error == e, "accepted exactly when well formed");
        if (ok) { vf_assert(got == sz || (str && got == 99), "size"); vf_assert(!al || o, "allocated"); vf_assert_eq(o, m.d + m.pos, (size_t)sz, "contents"); if (str) vf_assert(o[sz] == 0, "terminated"); m.pos += (size_t)sz; vf_assert(p.posn == m.pos, "consumed exactly"); if (al) free(o); vf_cover("ok"); }
        else { vf_assert((got == 0 || (str && got == 99)) && !q && !c && (op != STRING || o[0] == 0), "nothing handed out"); vf_cover("bad"); }
        vf_assert(vf_heap_live() == h + (room || op != STRING ? 1 : 0), "nothing leaks"); vf_assert(p.posn <= p.size, "stays inside"); vf_assert_eq(b, old, n, "input untouched"); return; }
    default:
        switch (op) {
        case INT32: e = noise_protobuf_read_int32(&p, tag, &i32); break; case UINT32: e = noise_protobuf_read_uint32(&p, tag, &u32); break; case INT64: e = noise_protobuf_read_int64(&p, tag, &i64); break; case UINT64: e = noise_protobuf_read_uint64(&p, tag, &u); break;
        case SINT32: e = noise_protobuf_read_sint32(&p, tag, &i32); break; case SINT64: e = noise_protobuf_read_sint64(&p, tag, &i64); break; case SFIXED32: e = noise_protobuf_read_sfixed32(&p, tag, &i32); break; case FIXED32: e = noise_protobuf_read_fixed32(&p, tag, &u32); break;
        case SFIXED64: e = noise_protobuf_read_sfixed64(&p, tag, &i64); break; case FIXED64: e = noise_protobuf_read_fixed64(&p, tag, &u); break; case FLOAT: e = noise_protobuf_read_float(&p, tag, &fl); if (!e) memcpy(&u32, &fl, 4); break; case DOUBLE: e = noise_protobuf_read_double(&p, tag, &db); if (!e) memcpy(&u, &db, 8); break; case BOOL: e = noise_protobuf_read_bool(&p, tag, &bo); break; }
        ok = tagged(tag, wire[op]) && (wire[op] == 0 ? varint(&v) : fixed(wire[op] == 5 ? 4 : 8, &v));
        if (ok && !e) switch (op) {
        case INT32: case SFIXED32: vf_assert(i32 == (int32_t)v, "value"); break; case UINT32: case FIXED32: case FLOAT: vf_assert(u32 == (uint32_t)v, "value"); break; case INT64: case SFIXED64: vf_assert(i64 == (int64_t)v, "value"); break; case UINT64: case FIXED64: case DOUBLE: vf_assert(u == v, "value"); break;
        case SINT32: if (v >> 32 == 0) vf_assert(i32 == (int32_t)((uint32_t)(v >> 1) ^ ((uint32_t)v & 1 ? 0xffffffffu : 0)), "value"); break; case SINT64: vf_assert(i64 == (int64_t)((v >> 1) ^ (v & 1 ? ~(uint64_t)0 : 0)), "value"); break; case BOOL: vf_assert(bo == (v != 0), "value"); break; }
    }
    vf_assert(e == (ok ? 0 : NOISE_ERROR_INVALID_FORMAT) && p.error == e, "accepted exactly when well formed");
    if (ok) { vf_assert(p.posn == m.pos, "consumed exactly"); vf_assert(noise_protobuf_finish_input(&p) == (m.pos == m.n ? 0 : NOISE_ERROR_INVALID_FORMAT), "trailing data"); vf_cover("ok"); } else { vf_assert(noise_protobuf_finish_input(&p) == NOISE_ERROR_INVALID_FORMAT, "error at the end"); vf_cover("bad"); }
    vf_assert(p.posn <= p.size, "stays inside"); vf_assert_eq(b, old, n, "input untouched");
}
