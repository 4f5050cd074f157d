/* Certificate and key objects: the documented schema as a table, reference objects, encoder and comparison. */
/* ---- the documented schema (doc/noise-certificate.proto) ---- */
typedef void (*fp)(void);
enum { U32, STR, BYT, SUB, REP };
struct fld { int tag, kind, sub; fp has, get, size, set, clear, at, ins; };
struct msg { fp new_, free_, write, read; int nf; struct fld f[6]; };
#define P(x) ((fp)(x))
#define N_(T, f) Noise_##T##_##f
#define FU(T, t, n) { t, U32, 0, P(Noise_##T##_has_##n), P(Noise_##T##_get_##n), 0, P(Noise_##T##_set_##n), P(Noise_##T##_clear_##n), 0, 0 }
#define FS(T, t, n) { t, STR, 0, P(Noise_##T##_has_##n), P(Noise_##T##_get_##n), P(Noise_##T##_get_size_##n), P(Noise_##T##_set_##n), P(Noise_##T##_clear_##n), 0, 0 }
#define FB(T, t, n) { t, BYT, 0, P(Noise_##T##_has_##n), P(Noise_##T##_get_##n), P(Noise_##T##_get_size_##n), P(Noise_##T##_set_##n), P(Noise_##T##_clear_##n), 0, 0 }
#define FM(T, t, n, s) { t, SUB, s, P(Noise_##T##_has_##n), P(Noise_##T##_get_##n), 0, P(Noise_##T##_get_new_##n), P(Noise_##T##_clear_##n), 0, 0 }
#define FR(T, t, n, s) { t, REP, s, P(Noise_##T##_has_##n), 0, P(Noise_##T##_count_##n), P(Noise_##T##_add_##n), P(Noise_##T##_clear_##n), P(Noise_##T##_get_at_##n), P(Noise_##T##_insert_##n) }
#define HD(T) P(Noise_##T##_new), P(Noise_##T##_free), P(Noise_##T##_write), P(Noise_##T##_read)
enum { CERT, CHAIN, SUBJ, PUBK, META, SIGN, EXTRA, ENCK, PRIV, PRIVK };
static const struct msg M[] = {
 { HD(Certificate), 3, { FU(Certificate, 1, version), FM(Certificate, 2, subject, SUBJ), FR(Certificate, 3, signatures, SIGN) } },
 { HD(CertificateChain), 1, { FR(CertificateChain, 8, certs, CERT) } },
 { HD(SubjectInfo), 5, { FS(SubjectInfo, 1, id), FS(SubjectInfo, 2, name), FS(SubjectInfo, 3, role), FR(SubjectInfo, 4, keys, PUBK), FR(SubjectInfo, 5, meta, META) } },
 { HD(PublicKeyInfo), 2, { FS(PublicKeyInfo, 1, algorithm), FB(PublicKeyInfo, 2, key) } },
 { HD(MetaInfo), 2, { FS(MetaInfo, 1, name), FS(MetaInfo, 2, value) } },
 { HD(Signature), 6, { FS(Signature, 1, id), FS(Signature, 2, name), FM(Signature, 3, signing_key, PUBK), FS(Signature, 4, hash_algorithm), FM(Signature, 5, extra_signed_info, EXTRA), FB(Signature, 15, signature) } },
 { HD(ExtraSignedInfo), 4, { FB(ExtraSignedInfo, 1, nonce), FS(ExtraSignedInfo, 2, valid_from), FS(ExtraSignedInfo, 3, valid_to), FR(ExtraSignedInfo, 4, meta, META) } },
 { HD(EncryptedPrivateKey), 5, { FU(EncryptedPrivateKey, 10, version), FS(EncryptedPrivateKey, 11, algorithm), FB(EncryptedPrivateKey, 12, salt), FU(EncryptedPrivateKey, 13, iterations), FB(EncryptedPrivateKey, 15, encrypted_data) } },
 { HD(PrivateKey), 5, { FS(PrivateKey, 1, id), FS(PrivateKey, 2, name), FS(PrivateKey, 3, role), FR(PrivateKey, 4, keys, PRIVK), FR(PrivateKey, 5, meta, META) } },
 { HD(PrivateKeyInfo), 2, { FS(PrivateKeyInfo, 1, algorithm), FB(PrivateKeyInfo, 2, key) } },
};
static int r_new(int t, void **o) { return ((int (*)(void **))M[t].new_)(o); }
static int r_free(int t, void *o) { return ((int (*)(void *))M[t].free_)(o); }
static int r_write(NoiseProtobuf *p, int t, int tag, const void *o) { return ((int (*)(NoiseProtobuf *, int, const void *))M[t].write)(p, tag, o); }
static int r_read(NoiseProtobuf *p, int t, int tag, void **o) { return ((int (*)(NoiseProtobuf *, int, void **))M[t].read)(p, tag, o); }
#define CI(f, o) ((int (*)(void *))(f))(o)
#define CZ(f, o) ((size_t (*)(void *))(f))(o)
#define CU(f, o) ((uint32_t (*)(void *))(f))(o)
#define CP(f, o) ((void *(*)(void *))(f))(o)
#define CSET(f, o, d, n) ((int (*)(void *, const void *, size_t))(f))(o, d, n)
#define CSETU(f, o, v) ((int (*)(void *, uint32_t))(f))(o, v)
#define CNEW(f, o, v) ((int (*)(void *, void **))(f))(o, v)
#define CAT(f, o, i) ((void *(*)(void *, size_t))(f))(o, i)
#define CINS(f, o, i, v) ((int (*)(void *, size_t, void *))(f))(o, i, v)
/* ---- reference objects ---- */
#ifndef MAXB
#define MAXB 12
#endif
#define MAXK 6
struct node { int t; struct { int has; uint32_t u; size_t n; uint8_t b[MAXB]; int nk; struct node *k[MAXK]; } v[6]; };
static struct node pool[24]; static int npool;
static struct node *mk(int t) { struct node *n = &pool[npool++]; n->t = t; return n; }
static uint8_t enc[400], enc2[400];
static size_t varlen(uint64_t v) { size_t n = 1; while (v >= 128) { v >>= 7; ++n; } return n; }
static size_t put(uint8_t *o, size_t at, uint64_t v) { while (v >= 128) { o[at++] = (uint8_t)(v | 128); v >>= 7; } o[at++] = (uint8_t)v; return at; }
static size_t body(const struct node *d);
static size_t total(size_t k, int tag) { return varlen((uint64_t)tag << 3) + varlen(k) + k; }
static size_t body(const struct node *d)
{
    size_t s = 0; int i, j;
    for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i]; if (f->kind == U32) { if (d->v[i].u) s += varlen((uint64_t)f->tag << 3) + varlen(d->v[i].u); } else if (f->kind == STR || f->kind == BYT) { if (d->v[i].has) s += total(d->v[i].n, f->tag); } else for (j = 0; j < d->v[i].nk; ++j) s += total(body(d->v[i].k[j]), f->tag); }
    return s;
}
static size_t encode(uint8_t *o, size_t at, const struct node *d, int tag)
{
    int i, j; if (tag) { at = put(o, at, ((uint64_t)tag << 3) | 2); at = put(o, at, body(d)); }
    for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i]; if (f->kind == U32) { if (d->v[i].u) { at = put(o, at, (uint64_t)f->tag << 3); at = put(o, at, d->v[i].u); } } else if (f->kind == STR || f->kind == BYT) { if (d->v[i].has) { at = put(o, at, ((uint64_t)f->tag << 3) | 2); at = put(o, at, d->v[i].n); memcpy(o + at, d->v[i].b, d->v[i].n); at += d->v[i].n; } } else for (j = 0; j < d->v[i].nk; ++j) at = encode(o, at, d->v[i].k[j], f->tag); }
    return at;
}
/* the object shows exactly the reference */
static void same(const struct node *d, void *o)
{
    int i, j; vf_assert(o != 0, "an object is there");
    for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i];
        if (f->kind == U32) { vf_assert(CU(f->get, o) == d->v[i].u && (CI(f->has, o) != 0) == (d->v[i].u != 0), "number field"); }
        else if (f->kind == STR || f->kind == BYT) { const uint8_t *b = CP(f->get, o); vf_assert((CI(f->has, o) != 0) == d->v[i].has && (b != 0) == d->v[i].has && CZ(f->size, o) == (d->v[i].has ? d->v[i].n : 0), "field presence and size"); if (d->v[i].has) { vf_assert_eq(b, d->v[i].b, d->v[i].n, "field contents"); if (f->kind == STR) vf_assert(b[d->v[i].n] == 0, "string is terminated"); } }
        else if (f->kind == SUB) { void *k = CP(f->get, o); vf_assert((CI(f->has, o) != 0) == (d->v[i].nk != 0) && (k != 0) == (d->v[i].nk != 0), "object field presence"); if (k) same(d->v[i].k[0], k); }
        else { vf_assert((CI(f->has, o) != 0) == (d->v[i].nk != 0) && CZ(f->size, o) == (size_t)d->v[i].nk, "number of entries"); vf_assert(CAT(f->at, o, d->v[i].nk) == 0, "nothing beyond the last entry"); for (j = 0; j < d->v[i].nk; ++j) same(d->v[i].k[j], CAT(f->at, o, j)); } }
}
static void setstr(struct node *d, int i, void *o, size_t n)
{
    const struct fld *f = &M[d->t].f[i]; size_t j; vf_bytes(d->v[i].b, n, "text"); if (f->kind == STR) for (j = 0; j < n; ++j) vf_assume(d->v[i].b[j] >= 1 && d->v[i].b[j] < 128);
    d->v[i].has = 1; d->v[i].n = n; vf_assert(CSET(f->set, o, d->v[i].b, n) == 0, "set");
}
/* a child: its first text field present or not */
static void lite(struct node *d, void *o)
{
    int i; if (!choose(2)) return;
    for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i]; if (f->kind == U32) { d->v[i].u = vf_u8("child"); vf_assume(d->v[i].u >= 1 && d->v[i].u < 128); vf_assert(CSETU(f->set, o, d->v[i].u) == 0, "set"); return; } if (f->kind == STR || f->kind == BYT) { setstr(d, i, o, 1); return; } }
}
static void fill(struct node *d, void *o)
{
    int i; void *k;
    for (i = 0; i < M[d->t].nf; ++i) { const struct fld *f = &M[d->t].f[i];
#ifdef FIELDS
        if (!((FIELDS >> i) & 1)) continue;
#endif
        if (f->kind == U32) { d->v[i].u = vf_u32("number"); vf_assert(CSETU(f->set, o, d->v[i].u) == 0, "set"); }
        else if (f->kind == STR || f->kind == BYT) { if (choose(2)) setstr(d, i, o, upto(MAXS, "len")); }
        else if (f->kind == SUB) { if (choose(2)) { d->v[i].nk = 1; d->v[i].k[0] = mk(f->sub); vf_assert(CNEW(f->set, o, &k) == 0 && k && CP(f->get, o) == k, "a new object is made and held"); lite(d->v[i].k[0], k); } }
        else { int n = (int)upto(2, "entries"), j; for (j = 0; j < n; ++j) { d->v[i].k[j] = mk(f->sub); vf_assert(CNEW(f->set, o, &k) == 0 && k && CAT(f->at, o, j) == k, "added at the end"); d->v[i].nk = j + 1; lite(d->v[i].k[j], k); } } }
}
