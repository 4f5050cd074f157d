/* The Noise handshake as one transcript: the patterns as published (Noise specification, revisions 30/31, with the
 * noidh and hfs extensions), token processing of section 5.3, NoisePSK as in section 6 of those revisions.
 * Both parties' keys are known here, so one state describes what both sides must do. */
typedef struct { const char *name, *pre, *msgs; } SpPattern;
/* pre: 's'/'S' = initiator/responder static known beforehand, 'E' = responder ephemeral known beforehand.
 * msgs: one string, tokens e s f 1=ee 2=es 3=se 4=ss 5=ff, '|' between messages */
static const SpPattern sp_patterns[] = {
    {"N", "S", "e2"}, {"K", "sS", "e24"}, {"X", "S", "e2s4"}, {"Xnoidh", "S", "es24"},
    {"NN", "", "e|e1"}, {"NK", "S", "e2|e1"}, {"NX", "", "e|e1s2"},
    {"XN", "", "e|e1|s3"}, {"XK", "S", "e2|e1|s3"}, {"XX", "", "e|e1s2|s3"},
    {"KN", "s", "e|e13"}, {"KK", "sS", "e24|e13"}, {"KX", "s", "e|e13s2"},
    {"IN", "", "es|e13"}, {"IK", "S", "e2s4|e13"}, {"IX", "", "es|e13s2"},
    {"XXfallback", "E", "e1s3|s2"},
    {"NXnoidh", "", "e|es12"}, {"XXnoidh", "", "e|es12|s3"}, {"KXnoidh", "s", "e|es132"},
    {"IKnoidh", "S", "es24|e13"}, {"IXnoidh", "", "es|es132"},
};
#define SP_NPAT (sizeof sp_patterns / sizeof sp_patterns[0])
typedef struct { int len; uint8_t priv[64], pub[64]; } SpKey;
typedef struct {
    SpSym ss; char name[64], pat[24]; const SpPattern *p; int psk, dh, hy, hfs, fallback;
    SpKey s[2], e[2], f[2];    /* 0 initiator, 1 responder */
    int known_f[2];
    char tok[64]; int pos;     /* expanded tokens */
    uint8_t nhss[2][32];
} SpHs;
static int sp_dhlen(int dh) { return dh == NOISE_DH_CURVE25519 ? 32 : dh == NOISE_DH_CURVE448 ? 56 : 32; }
static int sp_alg_named(const char *s, size_t n)
{
    if (n == 5 && !memcmp(s, "25519", 5)) return NOISE_DH_CURVE25519;
    if (n == 3 && !memcmp(s, "448", 3)) return NOISE_DH_CURVE448;
    if (n == 7 && !memcmp(s, "NewHope", 7)) return NOISE_DH_NEWHOPE;
    return 0;
}
static void sp_pattern(SpHs *h, const char *pat, size_t n)
{
    size_t i, j = 0, m = n; const char *t;
    h->hfs = 0;
    if (m > 3 && !memcmp(pat + m - 3, "hfs", 3)) { h->hfs = 1; m -= 3; if (pat[m - 1] == '+') --m; }
    h->p = 0;
    for (i = 0; i < SP_NPAT; ++i) if (strlen(sp_patterns[i].name) == m && !memcmp(sp_patterns[i].name, pat, m)) h->p = &sp_patterns[i];
    vf_assert(h->p != 0, "pattern in the table");
    for (t = h->p->msgs; *t; ++t) { h->tok[j++] = *t; if (h->hfs && *t == 'e') h->tok[j++] = 'f'; if (h->hfs && *t == '1') h->tok[j++] = '5'; }
    h->tok[j] = 0; h->pos = 0;
}
static void sp_hs_name(SpHs *h, const char *name)
{
    const char *q, *b = name, *plus = 0; int field = 0, cid = 0, hid = 0; size_t n = strlen(name);
    memset(h, 0, sizeof *h); memcpy(h->name, name, n + 1);
    for (q = name; ; ++q) {
        if (*q != '_' && *q) continue;
        n = q - b;
        if (field == 0) h->psk = n == 8;
        else if (field == 1) { memcpy(h->pat, b, n); h->pat[n] = 0; sp_pattern(h, b, n); }
        else if (field == 2) {
            for (plus = b; plus < q && *plus != '+'; ++plus) ;
            h->dh = sp_alg_named(b, plus - b); h->hy = plus < q ? sp_alg_named(plus + 1, q - plus - 1) : 0;
        } else if (field == 3) cid = *b == 'C' ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM;
        else if (field == 4) hid = b[0] == 'S' ? (n == 6 && b[3] == '2' ? NOISE_HASH_SHA256 : NOISE_HASH_SHA512) : (b[6] == 's' ? NOISE_HASH_BLAKE2s : NOISE_HASH_BLAKE2b);
        ++field; b = q + 1;
        if (!*q) break;
    }
    sp_init(&h->ss, cid, hid, name);
}
/* public key of a freshly chosen private key; dir sends it, other = the peer's public key if already sent */
static void sp_genkey(SpKey *k, int alg, int first, const SpKey *other, const uint8_t *priv, uint8_t *ss)
{
    if (alg == NOISE_DH_NEWHOPE) {
        if (first) { memcpy(k->priv, priv, 64); sd_nh_pub_a(k->pub, priv); k->len = SD_NHA; }
        else { memcpy(k->priv, priv, 32); sd_nh_pub_b(k->pub, ss, priv, other->pub); k->len = SD_NHB; }
    } else { k->len = sp_dhlen(alg); memcpy(k->priv, priv, k->len); vf_pub(k->pub, priv, k->len, sd_alg(alg)); }
}
static void sp_dh(SpHs *h, int alg, const SpKey *a, const SpKey *b, uint8_t *out, int nullpub)
{
    if (nullpub) memset(out, 0, sp_dhlen(alg));
    else if (alg == NOISE_DH_NEWHOPE) { if (a->len == SD_NHA) sd_nh_ss_a(out, a->priv, b->pub); else sd_nh_ss_a(out, b->priv, a->pub); }
    else vf_dh(out, a->priv, b->pub, sp_dhlen(alg), sd_alg(alg));
}
static void sp_start(SpHs *h, const uint8_t *prologue, size_t n, const uint8_t *psk)
{
    const char *t; uint8_t ck[64], tmp[64]; size_t L = sh_hlen(h->ss.hid);
    sp_mix_hash(&h->ss, prologue, n);
    if (h->psk) { spec_hkdf(h->ss.hid, ck, tmp, h->ss.ck, L, psk, 32); memcpy(h->ss.ck, ck, L); sp_mix_hash(&h->ss, tmp, L); }
    for (t = h->p->pre; *t; ++t) {
        if (*t == 's') sp_mix_hash(&h->ss, h->s[0].pub, h->s[0].len);
        else if (*t == 'S') sp_mix_hash(&h->ss, h->s[1].pub, h->s[1].len);
        else {
            sp_mix_hash(&h->ss, h->e[1].pub, h->e[1].len);
            if (h->hfs) sp_mix_hash(&h->ss, h->f[1].pub, h->f[1].len);
            if (h->psk) sp_mix_key(&h->ss, h->e[1].pub, h->e[1].len);
        }
    }
}
/* one message from dir (0 initiator, 1 responder); e[dir], f[dir] were set by the caller when 'e' or 'f' occurs.
 * cut, if not null, gets the offsets at which each field of the message ends; enc whether it is authenticated */
static size_t sp_message(SpHs *h, int dir, const uint8_t *payload, size_t n, uint8_t *out, size_t *cut, int *enc, int *ncut)
{
    size_t o = 0, was; uint8_t ss[64]; int c = 0;
    for (; h->tok[h->pos] && h->tok[h->pos] != '|'; ++h->pos) {
        was = o;
        switch (h->tok[h->pos]) {
        case 'e': memcpy(out + o, h->e[dir].pub, h->e[dir].len); sp_mix_hash(&h->ss, out + o, h->e[dir].len); o += h->e[dir].len;
                  if (h->psk) sp_mix_key(&h->ss, h->e[dir].pub, h->e[dir].len);
                  if (cut) { enc[c] = 0; cut[c++] = o; }
                  break;
        case 's': o += sp_enc(&h->ss, h->s[dir].pub, h->s[dir].len, out + o); break;
        case 'f': o += sp_enc(&h->ss, h->f[dir].pub, h->f[dir].len, out + o); break;
        case '1': sp_dh(h, h->dh, &h->e[0], &h->e[1], ss, 0); sp_mix_key(&h->ss, ss, sp_dhlen(h->dh)); break;
        case '2': sp_dh(h, h->dh, &h->e[0], &h->s[1], ss, 0); sp_mix_key(&h->ss, ss, sp_dhlen(h->dh)); break;
        case '3': sp_dh(h, h->dh, &h->s[0], &h->e[1], ss, 0); sp_mix_key(&h->ss, ss, sp_dhlen(h->dh)); break;
        case '4': sp_dh(h, h->dh, &h->s[0], &h->s[1], ss, 0); sp_mix_key(&h->ss, ss, sp_dhlen(h->dh)); break;
        case '5': sp_dh(h, h->hy, &h->f[0], &h->f[1], ss, 0); sp_mix_key(&h->ss, ss, sp_dhlen(h->hy)); break;
        }
        if (cut && o != was && (h->tok[h->pos] == 's' || h->tok[h->pos] == 'f')) { enc[c] = o - was != (size_t)(h->tok[h->pos] == 's' ? h->s[dir].len : h->f[dir].len); cut[c++] = o; }
    }
    if (h->tok[h->pos] == '|') ++h->pos;
    was = o; o += sp_enc(&h->ss, payload, n, out + o);
    if (cut) { enc[c] = h->ss.c.has; cut[c++] = o; *ncut = c; }
    return o;
}
