/* CipherState and SymmetricState as in sections 5.1 and 5.2 of the Noise specification, over the ideal primitives. */
typedef struct { int cid, has; uint8_t k[32]; uint64_t n; } SpCipher;
typedef struct { int hid; SpCipher c; uint8_t ck[64], h[64]; } SpSym;
static void sp_init(SpSym *s, int cid, int hid, const char *name)
{
    size_t n = strlen(name), L = sh_hlen(hid);
    memset(s, 0, sizeof *s); s->hid = hid; s->c.cid = cid;
    if (n <= L) memcpy(s->h, name, n); else spec_H(hid, s->h, (const uint8_t *)name, n);
    memcpy(s->ck, s->h, L);
}
static void sp_key(SpCipher *c, const uint8_t *k) { memcpy(c->k, k, 32); c->has = 1; c->n = 0; }
static void sp_mix_key(SpSym *s, const uint8_t *m, size_t n)
{
    uint8_t a[64], b[64]; size_t L = sh_hlen(s->hid);
    spec_hkdf(s->hid, a, b, s->ck, L, m, n);
    memcpy(s->ck, a, L); sp_key(&s->c, b);
}
static void sp_mix_hash(SpSym *s, const uint8_t *m, size_t n)
{
    static uint8_t b[SH_MAX]; size_t L = sh_hlen(s->hid);
    memcpy(b, s->h, L); if (n) memcpy(b + L, m, n);
    spec_H(s->hid, s->h, b, L + n);
}
/* out gets n or n+16 bytes; returns the length */
static size_t sp_enc(SpSym *s, const uint8_t *m, size_t n, uint8_t *out)
{
    if (n) memcpy(out, m, n);
    if (s->c.has) {
        sa_crypt(s->c.cid, s->c.k, s->c.n, out, n);
        sa_tag(s->c.cid, s->c.k, s->c.n, s->h, sh_hlen(s->hid), out, n, out + n);
        n += 16; s->c.n++;
    }
    sp_mix_hash(s, out, n);
    return n;
}
static void sp_split(SpSym *s, uint8_t k1[32], uint8_t k2[32])
{
    uint8_t a[64], b[64];
    spec_hkdf(s->hid, a, b, s->ck, sh_hlen(s->hid), s->ck, 0);
    memcpy(k1, a, 32); memcpy(k2, b, 32);
}
