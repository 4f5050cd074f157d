/* N01: algorithm and protocol names.  -DPART=0 single names, 1 parsing: what is accepted, 2 parsing: what must be accepted
 * and formatting of supported identifiers, 3 formatting of arbitrary identifiers */
#include <noise/protocol.h>
#include <noise/protocol/names.h>
#include "vf.h"
#include "vf_cbmc_libc.h"
#include "../spec/spec_names.h"
static int find(int id, char cat) { int i; for (i = 0; i < SPN_TOTAL; ++i) if (sp_names[i].id == id && (!cat || sp_names[i].cat == cat)) return i; return -1; }
static size_t put(char *out, size_t o, int idx) { size_t k; for (k = 0; k < 14; ++k) if (k < sp_names[idx].n) out[o + k] = sp_names[idx].name[k]; return o + sp_names[idx].n; }
static size_t build(char *out, int pr, int pa, int dh, int hy, int ci, int ha)
{
    size_t o = put(out, 0, pr); out[o++] = '_'; o = put(out, o, pa); out[o++] = '_'; o = put(out, o, dh);
    if (hy >= 0) { out[o++] = '+'; o = put(out, o, hy); }
    out[o++] = '_'; o = put(out, o, ci); out[o++] = '_'; o = put(out, o, ha); return o;
}
static int choose(int n) { int v = vf_u8("op"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
#define MAXN 58     /* the longest supported name */
static int pick(int base, int n, const char *nm) { int i = vf_u8(nm); vf_assume(i < n); return base + i; }
void harness(void)
{
#if PART == 0
    static const int cats[] = {0, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY};
    int c = (int)CAT, cat = c < 7 ? cats[c] : vf_int("category"), i, r, any = 0; size_t k;
    if (c == 7) for (i = 0; i < 7; ++i) vf_assume(cat != cats[i]);
#if NAME
    { size_t n = (size_t)vf_u8("len"); uint8_t s[20]; for (k = 0; k <= 20; ++k) if (k == 20 || n == k) break; n = k < 20 ? k : 0;
      char *q = vf_obj(n, 20); vf_bytes(q, n, "name"); memset(s, 0, sizeof s); memcpy(s, q, n);
      r = noise_name_to_id(cat, q, n); vf_assert(noise_name_to_id(cat, 0, n) == 0, "null name unknown");
      for (i = 0; i < SPN_TOTAL; ++i) {
        if (sp_names[i].n != n || (cat && (sp_names[i].id & 0xff00) != cat)) continue;
        vf_assert(!vf_same(s, sp_names[i].name, n) | (r == sp_names[i].id), "name to identifier");
        any |= vf_same(s, sp_names[i].name, n);
      }
      vf_assert(any | (r == 0), "unknown name"); if (r) vf_cover("known"); else vf_cover("unknown"); }
#else
    { int id = vf_int("id"); const char *t = noise_id_to_name(cat, id);
      i = find(id, 0);
      if (i < 0 || (cat && (id & 0xff00) != cat)) { vf_assert(t == 0, "unknown identifier has no name"); vf_cover("unknown"); }
      else { vf_assert(t != 0 && strlen(t) == sp_names[i].n && vf_same(t, sp_names[i].name, sp_names[i].n), "identifier to name"); vf_cover("known"); } }
#endif
#elif PART == 1
    NoiseProtocolId p; size_t n = vf_u8("len"), k; char *s, want[MAXN + 4]; int err, i, ok = 1;
    vf_assume(n >= NLO && n <= NHI); s = vf_obj(n, NHI); vf_bytes(s, n, "name");
#ifdef PREFIX
    { static const char pre[] = PREFIX; vf_assume(n >= sizeof pre - 1); for (k = 0; k < sizeof pre - 1; ++k) vf_assume(s[k] == pre[k]); }
#endif
    vf_bytes(&p, sizeof p, "junk");
    vf_assert(noise_protocol_name_to_id(0, s, n) == NOISE_ERROR_INVALID_PARAM, "null id");
    vf_assert(noise_protocol_name_to_id(&p, 0, n) == NOISE_ERROR_INVALID_PARAM, "null name");
    err = noise_protocol_name_to_id(&p, s, n);
    for (i = 0; i < (int)(sizeof p.reserved / sizeof p.reserved[0]); ++i) vf_assert(p.reserved[i] == 0, "reserved fields zero");
    if (err == NOISE_ERROR_NONE) {
        int pr = find(p.prefix_id, 'N'), pa = find(p.pattern_id, 'P'), dh = find(p.dh_id, 'D'), hy = p.hybrid_id ? find(p.hybrid_id, 'D') : -1, ci = find(p.cipher_id, 'C'), ha = find(p.hash_id, 'H');
        vf_assert(pr >= 0 && pa >= 0 && dh >= 0 && ci >= 0 && ha >= 0 && (hy >= 0 || !p.hybrid_id), "identifiers of an accepted name are supported");
        vf_assert(build(want, pr, pa, dh, hy, ci, ha) == n, "an accepted name is canonical (length)");
        for (k = 0; k < MAXN && k < NHI; ++k) if (k < n && want[k] != s[k]) ok = 0;
        vf_assert(ok, "an accepted name is canonical");
        vf_cover("accepted");
    } else {
        vf_assert(err == NOISE_ERROR_UNKNOWN_NAME, "unknown name refused");
        vf_assert(!p.prefix_id && !p.pattern_id && !p.dh_id && !p.hybrid_id && !p.cipher_id && !p.hash_id, "no identifiers on failure");
        vf_cover("refused");
    }
#elif PART == 2
    /* five or six fields; the fields of FREE hold any bytes in any number up to 15 (separators included), the others one of
     * two supported names each; against a reference parser */
    static const int alt[6][2] = {{SPN_PREFIX, SPN_PREFIX + 1}, {SPN_PATTERN, SPN_PATTERN + 15}, {SPN_DH, SPN_DH + 1}, {SPN_DH + 2, SPN_DH}, {SPN_CIPHER, SPN_CIPHER + 1}, {SPN_HASH + 1, SPN_HASH + 2}};
    static const char catof[] = "NPDDCH"; static const char sep[] = "__+__"; static const int catid[] = {NOISE_PREFIX_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_DH_CATEGORY, NOISE_DH_CATEGORY, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY};
    char *s, t[110]; size_t n = 0, k, st[7], q; int f, hyb = PAIR ? (FREE >> 3) & 1 : choose(2), i, err, ok = 1, ids[6], r[6], nf = 0, any; NoiseProtocolId p;
    memset(t, 0, sizeof t);
    for (f = 0; f < 6; ++f) {
        if (f == 3 && !hyb) continue;
        if (n) t[n++] = f == 3 ? '+' : '_';
        if ((FREE >> f) & 1) { size_t l = upto(FREELEN, "len"); vf_bytes(t + n, l, "name"); n += l; }
        else { i = alt[f][PAIR ? 0 : choose(2)]; memcpy(t + n, sp_names[i].name, sp_names[i].n); n += sp_names[i].n; }
    }
    if (!PAIR && choose(2)) { vf_bytes(t + n, 1, "name"); ++n; }
    s = vf_obj(n, 110); memcpy(s, t, n); vf_bytes(&p, sizeof p, "junk");
    err = noise_protocol_name_to_id(&p, s, n);
    /* reference: split at '_' into exactly five fields, the third once more at its first '+' */
    (void)sep; nf = 0; st[0] = 0; for (k = 0; k < n && nf < 5; ++k) if (t[k] == '_') st[++nf] = k + 1;
    memset(ids, 0, sizeof ids); r[0] = 0;
    if (nf != 4) ok = 0;
    else { st[5] = n + 1;
        for (f = 0; f < 5 && ok; ++f) { size_t b = st[f], e = st[f + 1] - 1, m = e; int part;
            if (f == 2) { for (q = b; q < e; ++q) if (t[q] == '+') { m = q; break; } }
            for (part = 0; part < 2 && ok; ++part) { size_t b2 = part ? m + 1 : b, e2 = part ? e : m; int slot = f < 2 ? f : f == 2 ? 2 + part : f + 1; if (part && m == e) break;
                for (any = 0, i = 0; i < SPN_TOTAL; ++i) if (sp_names[i].cat == catof[slot] && sp_names[i].n == e2 - b2 && vf_same(t + b2, sp_names[i].name, e2 - b2)) { ids[slot] = sp_names[i].id; any = 1; break; }
                if (!any) ok = 0; } } }
    (void)catid;
    for (i = 0; i < (int)(sizeof p.reserved / sizeof p.reserved[0]); ++i) vf_assert(p.reserved[i] == 0, "reserved fields zero");
    if (ok) { vf_assert(err == NOISE_ERROR_NONE, "supported name accepted"); vf_assert(p.prefix_id == ids[0] && p.pattern_id == ids[1] && p.dh_id == ids[2] && p.hybrid_id == ids[3] && p.cipher_id == ids[4] && p.hash_id == ids[5], "identifiers of the name"); vf_cover("accepted"); }
    else { vf_assert(err == NOISE_ERROR_UNKNOWN_NAME, "unknown name refused"); vf_assert(!p.prefix_id && !p.pattern_id && !p.dh_id && !p.hybrid_id && !p.cipher_id && !p.hash_id, "no identifiers on failure"); vf_cover("refused"); }
#elif PART == 4
    /* formatting any identifiers into any buffer, and parsing what was formatted */
    NoiseProtocolId p, q; size_t cap = vf_u8("cap"), n = 0; char *out, want[MAXN + 4]; int err, i, known, res = 0; int id[6], ix[6]; static const char catof[] = "NPDDCH";
    vf_bytes(&p, sizeof p, "ids"); vf_assume(cap <= MAXN + 3);
#if HI
    i = SPN_PATTERN + LO + choose(HI - LO < SPN_TOTAL - SPN_PATTERN - LO ? HI - LO : SPN_TOTAL - SPN_PATTERN - LO); p.pattern_id = sp_names[i].id;
#else
    for (i = SPN_PATTERN; i < SPN_TOTAL; ++i) vf_assume(p.pattern_id != sp_names[i].id);
#endif
#ifdef REST
    p.dh_id = sp_names[SPN_DH].id; p.cipher_id = sp_names[SPN_CIPHER].id; p.hash_id = sp_names[SPN_HASH + 2].id;
#endif
    if (choose(2)) memset(p.reserved, 0, sizeof p.reserved); else { NoiseProtocolId z; memset(&z, 0, sizeof z); memcpy(z.reserved, p.reserved, sizeof p.reserved); p = z; p.prefix_id = NOISE_PREFIX_STANDARD; p.pattern_id = sp_names[SPN_PATTERN + LO].id; p.dh_id = NOISE_DH_CURVE25519; p.cipher_id = NOISE_CIPHER_AESGCM; p.hash_id = NOISE_HASH_SHA256; }
    out = vf_obj(cap, MAXN + 3);
    err = noise_protocol_id_to_name(out, cap, &p);
    id[0] = p.prefix_id; id[1] = p.pattern_id; id[2] = p.dh_id; id[3] = p.hybrid_id; id[4] = p.cipher_id; id[5] = p.hash_id;
    for (i = 0; i < (int)(sizeof p.reserved / sizeof p.reserved[0]); ++i) res |= p.reserved[i];
    if (err == NOISE_ERROR_NONE) {
        vf_assert(!res, "reserved fields zero");
        for (i = 0; i < 6; ++i) if (i == 3 && !id[3]) ix[i] = -1; else { ix[i] = find(id[i], catof[i]); vf_assert(ix[i] >= 0, "only supported identifiers are formatted"); }
        n = build(want, ix[0], ix[1], ix[2], ix[3], ix[4], ix[5]); vf_assert(n < cap, "terminated"); vf_assert(out[n] == 0, "terminated"); vf_assert_eq(out, want, n, "formatted name");
        vf_assert(noise_protocol_name_to_id(&q, out, n) == NOISE_ERROR_NONE && q.prefix_id == sp_names[ix[0]].id && q.pattern_id == sp_names[ix[1]].id && q.dh_id == sp_names[ix[2]].id && q.hybrid_id == (ix[3] < 0 ? 0 : sp_names[ix[3]].id) && q.cipher_id == sp_names[ix[4]].id && q.hash_id == sp_names[ix[5]].id, "parsing is the inverse of formatting");
        vf_cover("supported"); if (n == MAXN) vf_cover("longest"); return;
    }
    /* knownness and length of the name, computed without a branch */
    known = 1;
    for (i = 0; i < 6; ++i) { int any = 0, k; for (k = 0; k < SPN_TOTAL; ++k) if (sp_names[k].cat == catof[i]) { int eq = id[i] == sp_names[k].id; any |= eq; n += (size_t)eq * sp_names[k].n; } if (i == 3) { any |= !id[3]; n += (size_t)(id[3] != 0); } else if (i) ++n; known &= any; }
    known &= !res; vf_assert(!known | (n < NOISE_MAX_PROTOCOL_NAME), "the longest name fits NOISE_MAX_PROTOCOL_NAME");
    {
        vf_assert(err == NOISE_ERROR_UNKNOWN_ID || err == NOISE_ERROR_INVALID_LENGTH, "refused");
        vf_assert(!(known & (cap > n)), "supported identifiers that fit are formatted");
        if (err == NOISE_ERROR_INVALID_LENGTH) { vf_assert(cap <= MAXN, "too small"); vf_cover("too small"); } else { vf_assert(!known, "unknown identifier"); vf_cover("unknown"); }
        if (cap) vf_assert(out[0] == 0, "empty on failure");
    }
#else
    NoiseProtocolId p; size_t cap = vf_u8("cap"), n = 0, k; char *out, want[MAXN + 4]; int err, i, known, ok = 1;
    vf_bytes(&p, sizeof p, "ids"); vf_assume(cap <= MAXN + 3); out = vf_obj(cap, MAXN + 3); vf_bytes(out, cap, "old");
    if (vf_u8("null") & 1) {
        vf_assert(noise_protocol_id_to_name(0, cap, &p) == NOISE_ERROR_INVALID_PARAM, "null buffer");
        vf_assert(noise_protocol_id_to_name(out, cap, 0) == NOISE_ERROR_INVALID_PARAM, "null id"); vf_assert(!cap || out[0] == 0, "empty on failure"); vf_cover("null"); return;
    }
    int pr = find(p.prefix_id, 'N'), pa = find(p.pattern_id, 'P'), dh = find(p.dh_id, 'D'), hy = p.hybrid_id ? find(p.hybrid_id, 'D') : -1, ci = find(p.cipher_id, 'C'), ha = find(p.hash_id, 'H');
    known = pr >= 0 && pa >= 0 && dh >= 0 && ci >= 0 && ha >= 0 && (hy >= 0 || !p.hybrid_id);
    for (i = 0; i < (int)(sizeof p.reserved / sizeof p.reserved[0]); ++i) if (p.reserved[i]) known = 0;
    if (known) { n = build(want, pr, pa, dh, hy, ci, ha); vf_cover("supported"); }
    err = noise_protocol_id_to_name(out, cap, &p);
    if (known && cap > n) {
        vf_assert(err == NOISE_ERROR_NONE && out[n] == 0, "supported identifiers are formatted");
        for (k = 0; k < MAXN; ++k) if (k < n && out[k] != want[k]) ok = 0;
        vf_assert(ok, "formatted name");
    } else {
        vf_assert(err == NOISE_ERROR_UNKNOWN_ID || err == NOISE_ERROR_INVALID_LENGTH, "refused");
        if (known) vf_assert(err == NOISE_ERROR_INVALID_LENGTH, "too small");
        else if (cap > MAXN) { vf_assert(err == NOISE_ERROR_UNKNOWN_ID, "unknown identifier"); vf_cover("unknown"); }
        vf_assert(!cap || out[0] == 0, "empty on failure");
    }
#endif
}
