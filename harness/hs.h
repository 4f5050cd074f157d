/* Two real handshake objects and the specification's transcript, driven together. */
#ifndef SH_MAX
#define SH_MAX 400
#endif
#include "stub_hash.h"
#include "stub_aead.h"
#include "stub_dh.h"
#include "spec_kdf.h"
#include "spec_sym.h"
#include "spec_hs.h"
#include <stdio.h>
static unsigned choose(unsigned n) { uint8_t v = vf_u8("choice"); unsigned i; vf_assume(v < n); for (i = 0; i < n; ++i) if (v == i) return i; return 0; }
static SpHs sp; static NoiseHandshakeState *hs[2]; static const int hs_role[2] = {NOISE_ROLE_INITIATOR, NOISE_ROLE_RESPONDER};
static uint8_t psk[32], prologue[8], msg[600], want[600], pay[64], got[64], fixedk[2][64], fixedf[2][64];
static size_t prologue_len = 4;
static int has_tok(const char *t, char c) { for (; *t; ++t) if (*t == c) return 1; return 0; }
/* who uses (sends, or is expected to hold) a static key; which peer static keys are needed beforehand */
static int sp_sends(const SpHs *h, int dir, char tok) { int d = 0, i; for (i = 0; h->tok[i]; ++i) { if (h->tok[i] == '|') d ^= 1; else if (h->tok[i] == tok && d == dir) return 1; } return 0; }
static int sp_local_static(const SpHs *h, int r) { return sp_sends(h, r, 's') || has_tok(h->p->pre, r ? 'S' : 's'); }
static int sp_remote_pre(const SpHs *h, int r) { return has_tok(h->p->pre, r ? 's' : 'S'); }
static int sp_nmsgs(const SpHs *h) { int n = 1, i; for (i = 0; h->tok[i]; ++i) n += h->tok[i] == '|'; return n; }
static int dir_at(int m) { return m & 1; }
static void hs_statics(void)
{
    int r;
    for (r = 0; r < 2; ++r) if (sp_local_static(&sp, r)) { uint8_t k[64]; vf_bytes(k, sp_dhlen(sp.dh), r ? "rs" : "is"); sp_genkey(&sp.s[r], sp.dh, 1, 0, k, 0); }
    vf_bytes(prologue, prologue_len, "prologue"); if (sp.psk) vf_bytes(psk, 32, "psk");
}
static void hs_keys(int r)
{
    if (sp_local_static(&sp, r)) vf_assert(noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(hs[r]), sp.s[r].priv, sp.s[r].len) == NOISE_ERROR_NONE, "local static key accepted");
    if (sp_remote_pre(&sp, r)) vf_assert(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs[r]), sp.s[!r].pub, sp.s[!r].len) == NOISE_ERROR_NONE, "remote static key accepted");
    if (prologue_len) vf_assert(noise_handshakestate_set_prologue(hs[r], prologue, prologue_len) == NOISE_ERROR_NONE, "prologue accepted");
    if (sp.psk) vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], psk, 32) == NOISE_ERROR_NONE, "pre-shared key accepted");
}
static void hs_new(int r, const char *name, int byid)
{
    if (byid) { NoiseProtocolId id; vf_assert(noise_protocol_name_to_id(&id, name, strlen(name)) == NOISE_ERROR_NONE && noise_handshakestate_new_by_id(&hs[r], &id, hs_role[r]) == NOISE_ERROR_NONE, "handshake object by id"); }
    else vf_assert(noise_handshakestate_new_by_name(&hs[r], name, hs_role[r]) == NOISE_ERROR_NONE, "handshake object by name");
    vf_assert(noise_handshakestate_get_role(hs[r]) == hs_role[r] && noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_NONE, "role and action at creation");
}
/* keys the specification needs before message m is computed: taken from the object that generated them */
static void hs_expect_keys(int m, const uint8_t *ephemeral, const uint8_t *hybrid)
{
    int d = dir_at(m), i = sp.pos;
    for (; sp.tok[i] && sp.tok[i] != '|'; ++i) {
        if (sp.tok[i] == 'e') sp_genkey(&sp.e[d], sp.dh, sp.e[!d].len == 0, &sp.e[!d], ephemeral, sp.nhss[0]);
        if (sp.tok[i] == 'f') sp_genkey(&sp.f[d], sp.hy, sp.f[!d].len == 0, &sp.f[!d], hybrid, sp.nhss[1]);
    }
}
static const size_t paylens[3] = {5, 0, 3};
static size_t cut[8]; static int cenc[8], ncut;
static size_t hs_expected(int m)    /* the specification's message m, after the writer has generated its keys */
{
    int d = dir_at(m); uint8_t e[64], f[64];
    if (hs[d]->dh_local_ephemeral) memcpy(e, hs[d]->dh_local_ephemeral->private_key, hs[d]->dh_local_ephemeral->private_key_len);
    if (hs[d]->dh_local_hybrid) memcpy(f, hs[d]->dh_local_hybrid->private_key, hs[d]->dh_local_hybrid->private_key_len);
    hs_expect_keys(m, e, f);
    return sp_message(&sp, d, pay, paylens[m % 3], want, cut, cenc, &ncut);
}
static int act_after(int m, int r)
{
    if (m + 1 == sp_nmsgs(&sp)) return NOISE_ACTION_SPLIT;
    return dir_at(m + 1) == r ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE;
}
static void buf_is(const uint8_t *p, size_t from, size_t to, uint8_t v, const char *what) { size_t i; for (i = from; i < to; ++i) if (p[i] != v) break; vf_assert(i >= to, "bytes outside the message are untouched"); (void)what; }
static size_t hs_write(int m)
{
    int d = dir_at(m); NoiseBuffer b, p; size_t w, n = paylens[m % 3];
    vf_bytes(pay, n, "payload"); memset(msg, 0x77, sizeof msg);
    noise_buffer_set_output(b, msg, sizeof msg - 100); noise_buffer_set_input(p, pay, n);
    vf_assert(noise_handshakestate_write_message(hs[d], &b, n || m == 1 ? &p : 0) == NOISE_ERROR_NONE, "write_message succeeds");
    w = hs_expected(m);
    vf_assert(b.size == w && b.data == msg, "length of the handshake message");
    vf_assert_eq(msg, want, w, "handshake message bytes");
    buf_is(msg, w, sizeof msg, 0x77, "write");
    vf_assert(noise_handshakestate_get_action(hs[d]) == act_after(m, d), "action after writing");
    return w;
}
static void hs_read(int m, size_t w)
{
    int d = !dir_at(m); NoiseBuffer b, p; size_t n = paylens[m % 3];
    memset(got, 0x55, sizeof got);
    noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, n);
    vf_assert(noise_handshakestate_read_message(hs[d], &b, m == 1 && n == 0 ? 0 : &p) == NOISE_ERROR_NONE, "read_message succeeds");
    if (!(m == 1 && n == 0)) vf_assert(p.size == n, "payload length");
    vf_assert_eq(got, pay, n, "payload delivered unchanged");
    buf_is(got, n, sizeof got, 0x55, "payload"); buf_is(msg, w, sizeof msg, 0x77, "read");
    vf_assert(noise_handshakestate_get_action(hs[d]) == act_after(m, d), "action after reading");
}
static void hs_finish(void)
{
    NoiseCipherState *c[2][2]; uint8_t k[2][32], h[80], t[24], w[40]; int r, i, j, oneway = sp_nmsgs(&sp) == 1; size_t L = sh_hlen(sp.ss.hid); NoiseBuffer b;
    for (r = 0; r < 2; ++r) {
        memset(h, 0x66, sizeof h);
        vf_assert(noise_handshakestate_get_handshake_hash(hs[r], h, L) == NOISE_ERROR_NONE, "handshake hash available"); vf_assert_eq(h, sp.ss.h, L, "handshake hash"); buf_is(h, L, sizeof h, 0x66, "hash");
        vf_assert(noise_handshakestate_get_handshake_hash(hs[r], h, 20) == NOISE_ERROR_NONE && noise_handshakestate_get_handshake_hash(hs[r], h, L + 8) == NOISE_ERROR_NONE, "handshake hash, other lengths");
        vf_assert_eq(h, sp.ss.h, L, "handshake hash"); buf_is(h, L, L + 8, 0, "hash"); buf_is(h, L + 8, sizeof h, 0x66, "hash");
        vf_assert(noise_handshakestate_split(hs[r], &c[r][0], &c[r][1]) == NOISE_ERROR_NONE && noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_COMPLETE, "split");
        vf_assert(noise_handshakestate_get_handshake_hash(hs[r], h, L) == NOISE_ERROR_NONE, "handshake hash available after split"); vf_assert_eq(h, sp.ss.h, L, "handshake hash after split");
        if (sp_sends(&sp, !r, 's')) { vf_assert(noise_handshakestate_has_remote_public_key(hs[r]), "remote static known"); vf_assert_eq(noise_handshakestate_get_remote_public_key_dh(hs[r])->public_key, sp.s[!r].pub, sp.s[!r].len, "remote static key learned"); }
    }
    sp_split(&sp.ss, k[0], k[1]);
    for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) {   /* i sends message number j */
        memset(t, 9, 8); memset(w, 9, 8);
        sa_crypt(sp.ss.c.cid, k[i], j, w, 8); sa_tag(sp.ss.c.cid, k[i], j, 0, 0, w, 8, w + 8);
        noise_buffer_set_inout(b, t, 8, 24);
        vf_assert(noise_cipherstate_encrypt(c[i][0], &b) == NOISE_ERROR_NONE && b.size == 24, "transport encrypt"); vf_assert_eq(t, w, 24, "transport message");
        vf_assert(noise_cipherstate_decrypt(c[!i][1], &b) == NOISE_ERROR_NONE && b.size == 8 && t[0] == 9 && t[7] == 9, "transport message accepted by the peer");
    }
    (void)oneway;
    for (r = 0; r < 2; ++r) { noise_cipherstate_free(c[r][0]); noise_cipherstate_free(c[r][1]); noise_handshakestate_free(hs[r]); }
#ifdef VF_SE
    vf_assert(vf_heap_live() == 0, "nothing leaks");
#endif
}
