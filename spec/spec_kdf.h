/* HMAC (RFC 2104), Noise HKDF and PBKDF2 (RFC 8018) over the ideal hash of stub_hash.h. */
static void spec_H(int id, uint8_t *out, const uint8_t *m, size_t n) { vf_uf(sh_name(id), out, sh_hlen(id), m, n); }
static void spec_hmac(int id, uint8_t *out, const uint8_t *key, size_t klen, const uint8_t *m, size_t n)
{
    static uint8_t b[SH_MAX]; uint8_t k[128], in[64]; size_t B = sh_blen(id), L = sh_hlen(id), i;
    for (i = 0; i < 128; ++i) k[i] = 0;
    if (klen > B) spec_H(id, k, key, klen); else memcpy(k, key, klen);
    for (i = 0; i < B; ++i) b[i] = k[i] ^ 0x36;
    memcpy(b + B, m, n);
    spec_H(id, in, b, B + n);
    for (i = 0; i < B; ++i) b[i] = k[i] ^ 0x5c;
    memcpy(b + B, in, L);
    spec_H(id, out, b, B + L);
}
/* outputs are whole hash lengths */
static void spec_hkdf(int id, uint8_t *o1, uint8_t *o2, const uint8_t *ck, size_t cklen, const uint8_t *ikm, size_t n)
{
    uint8_t tk[64], t1[64], b[65]; size_t L = sh_hlen(id);
    spec_hmac(id, tk, ck, cklen, ikm, n);
    b[0] = 1; spec_hmac(id, t1, tk, L, b, 1);
    memcpy(b, t1, L); b[L] = 2; spec_hmac(id, o2, tk, L, b, L + 1);
    memcpy(o1, t1, L);
}
static void spec_pbkdf2(int id, uint8_t *out, size_t outlen, const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t slen, size_t iter)
{
    static uint8_t b[SH_MAX]; uint8_t u[64], t[64], v[64]; size_t L = sh_hlen(id), i, j, k = 1, m;
    while (outlen) {
        memcpy(b, salt, slen); b[slen] = (uint8_t)(k >> 24); b[slen + 1] = (uint8_t)(k >> 16); b[slen + 2] = (uint8_t)(k >> 8); b[slen + 3] = (uint8_t)k;
        spec_hmac(id, u, pw, pwlen, b, slen + 4);
        memcpy(t, u, L);
        for (i = 2; i <= iter; ++i) { spec_hmac(id, v, pw, pwlen, u, L); memcpy(u, v, L); for (j = 0; j < L; ++j) t[j] ^= u[j]; }
        m = outlen < L ? outlen : L;
        memcpy(out, t, m); out += m; outlen -= m; ++k;
    }
}
