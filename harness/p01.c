/* P01: which protocol identifiers exist, what they require, and what their messages are.
 * PART=0: every identifier.  PART=1: complete handshakes by identifier.  -DPAT0 -DPAT1: range of the table */
#include "hs.h"
static const struct { int id; const char *name; } tab[] = {
    {NOISE_PATTERN_N, "N"}, {NOISE_PATTERN_X, "X"}, {NOISE_PATTERN_K, "K"}, {NOISE_PATTERN_NN, "NN"}, {NOISE_PATTERN_NK, "NK"}, {NOISE_PATTERN_NX, "NX"},
    {NOISE_PATTERN_XN, "XN"}, {NOISE_PATTERN_XK, "XK"}, {NOISE_PATTERN_XX, "XX"}, {NOISE_PATTERN_KN, "KN"}, {NOISE_PATTERN_KK, "KK"}, {NOISE_PATTERN_KX, "KX"},
    {NOISE_PATTERN_IN, "IN"}, {NOISE_PATTERN_IK, "IK"}, {NOISE_PATTERN_IX, "IX"}, {NOISE_PATTERN_XX_FALLBACK, "XXfallback"},
    {NOISE_PATTERN_X_NOIDH, "Xnoidh"}, {NOISE_PATTERN_NX_NOIDH, "NXnoidh"}, {NOISE_PATTERN_XX_NOIDH, "XXnoidh"}, {NOISE_PATTERN_KX_NOIDH, "KXnoidh"},
    {NOISE_PATTERN_IK_NOIDH, "IKnoidh"}, {NOISE_PATTERN_IX_NOIDH, "IXnoidh"},
    {NOISE_PATTERN_NN_HFS, "NNhfs"}, {NOISE_PATTERN_NK_HFS, "NKhfs"}, {NOISE_PATTERN_NX_HFS, "NXhfs"}, {NOISE_PATTERN_XN_HFS, "XNhfs"}, {NOISE_PATTERN_XK_HFS, "XKhfs"},
    {NOISE_PATTERN_XX_HFS, "XXhfs"}, {NOISE_PATTERN_KN_HFS, "KNhfs"}, {NOISE_PATTERN_KK_HFS, "KKhfs"}, {NOISE_PATTERN_KX_HFS, "KXhfs"}, {NOISE_PATTERN_IN_HFS, "INhfs"},
    {NOISE_PATTERN_IK_HFS, "IKhfs"}, {NOISE_PATTERN_IX_HFS, "IXhfs"}, {NOISE_PATTERN_XX_FALLBACK_HFS, "XXfallback+hfs"}, {NOISE_PATTERN_NX_NOIDH_HFS, "NXnoidh+hfs"},
    {NOISE_PATTERN_XX_NOIDH_HFS, "XXnoidh+hfs"}, {NOISE_PATTERN_KX_NOIDH_HFS, "KXnoidh+hfs"}, {NOISE_PATTERN_IK_NOIDH_HFS, "IKnoidh+hfs"}, {NOISE_PATTERN_IX_NOIDH_HFS, "IXnoidh+hfs"},
};
#define NTAB (int)(sizeof tab / sizeof tab[0])
static int any_int(const char *n) { return (int)vf_u32(n); }
static int one_dh(int id) { return id == NOISE_DH_CURVE25519 ? 1 : id == NOISE_DH_CURVE448 ? 2 : id == NOISE_DH_NEWHOPE ? 3 : 0; }
static void put(char *d, const char *s) { size_t i = strlen(d), j; for (j = 0; s[j]; ++j) d[i + j] = s[j]; d[i + j] = 0; }
static const char *const dhn[] = {"", "25519", "448", "NewHope"};
static void build(char *n, int psk, int t, int dh, int hy, const char *c, const char *h)
{
    n[0] = 0; put(n, psk ? "NoisePSK_" : "Noise_"); put(n, tab[t].name); put(n, "_"); put(n, dhn[dh]); if (hy) { put(n, "+"); put(n, dhn[hy]); } put(n, "_"); put(n, c); put(n, "_"); put(n, h);
}
static void requirements(NoiseHandshakeState *s, int r)
{
    int L = sp_local_static(&sp, r), R = sp_local_static(&sp, !r), P = sp_remote_pre(&sp, r), i;
    for (i = 0; i < 2; ++i) {
        vf_assert((noise_handshakestate_get_local_keypair_dh(s) != 0) == L && !!noise_handshakestate_needs_local_keypair(s) == L && !noise_handshakestate_has_local_keypair(s), "local static key requirement");
        vf_assert((noise_handshakestate_get_remote_public_key_dh(s) != 0) == R && !!noise_handshakestate_needs_remote_public_key(s) == P && !noise_handshakestate_has_remote_public_key(s), "remote static key requirement");
        vf_assert(!!noise_handshakestate_needs_pre_shared_key(s) == sp.psk && !noise_handshakestate_has_pre_shared_key(s), "pre-shared key requirement");
    }
    if (L) vf_assert(noise_dhstate_get_dh_id(noise_handshakestate_get_local_keypair_dh(s)) == sp.dh, "algorithm of the static key");
    if (R) vf_assert(noise_dhstate_get_dh_id(noise_handshakestate_get_remote_public_key_dh(s)) == sp.dh, "algorithm of the static key");
    vf_assert((noise_handshakestate_get_fixed_ephemeral_dh(s) != 0) == (sp_sends(&sp, r, 'e') || (r == 1 && has_tok(sp.p->pre, 'E'))), "a fixed ephemeral key applies where an ephemeral is sent");
    vf_assert((noise_handshakestate_get_fixed_hybrid_dh(s) != 0) == (sp_sends(&sp, r, 'f') || (r == 1 && sp.hfs && has_tok(sp.p->pre, 'E'))), "a fixed hybrid key applies where a hybrid key is sent");
}
#if PART == 0
void harness(void)
{
    NoiseProtocolId id, back; NoiseHandshakeState *s = (NoiseHandshakeState *)&id; int err, want_err, t, dh, hy, role, c = 1, h = 1, staticky; char n[80];
    memset(&id, 0, sizeof id);
    id.pattern_id = any_int("pattern"); id.prefix_id = any_int("prefix"); role = any_int("role");
    id.dh_id = SWEEP == 0 ? any_int("dh") : NOISE_DH_CURVE25519; id.hybrid_id = SWEEP == 0 ? any_int("hybrid") : 0;
    id.cipher_id = SWEEP ? any_int("cipher") : NOISE_CIPHER_AESGCM; id.hash_id = SWEEP ? any_int("hash") : NOISE_HASH_BLAKE2b;
#if SWEEP == 0
    vf_assume(role == NOISE_ROLE_INITIATOR || role == NOISE_ROLE_RESPONDER); vf_assume(id.prefix_id == PREFIX);
#endif
    err = noise_handshakestate_new_by_id(&s, &id, role);
    for (t = 0; t < NTAB; ++t) if (tab[t].id == id.pattern_id) break;
    dh = one_dh(id.dh_id); hy = one_dh(id.hybrid_id);
    if (id.cipher_id != NOISE_CIPHER_CHACHAPOLY && id.cipher_id != NOISE_CIPHER_AESGCM) c = 0;
    if (id.hash_id != NOISE_HASH_SHA256 && id.hash_id != NOISE_HASH_SHA512 && id.hash_id != NOISE_HASH_BLAKE2s && id.hash_id != NOISE_HASH_BLAKE2b) h = 0;
    if (role != NOISE_ROLE_INITIATOR && role != NOISE_ROLE_RESPONDER) want_err = NOISE_ERROR_INVALID_PARAM;
    else if (t == NTAB || !dh || (!hy && id.hybrid_id != NOISE_DH_NONE) || !c || !h || (id.prefix_id != NOISE_PREFIX_STANDARD && id.prefix_id != NOISE_PREFIX_PSK)) want_err = NOISE_ERROR_UNKNOWN_ID;
    else {
        build(n, id.prefix_id == NOISE_PREFIX_PSK, t, dh, hy, id.cipher_id == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly",
              id.hash_id == NOISE_HASH_SHA256 ? "SHA256" : id.hash_id == NOISE_HASH_SHA512 ? "SHA512" : id.hash_id == NOISE_HASH_BLAKE2s ? "BLAKE2s" : "BLAKE2b");
        sp_hs_name(&sp, n);
        staticky = sp_local_static(&sp, 0) || sp_local_static(&sp, 1);
        want_err = sp.hfs != (hy != 0) || (dh == 3 && staticky) ? NOISE_ERROR_NOT_APPLICABLE : NOISE_ERROR_NONE;
        if (want_err == NOISE_ERROR_NOT_APPLICABLE) vf_cover("not applicable");
    }
    vf_assert(err == want_err, "exactly the supported combinations can be created");
    if (err != NOISE_ERROR_NONE) vf_assert(s == 0, "no object on failure");
    else {
        vf_assert(noise_handshakestate_get_role(s) == role && noise_handshakestate_get_action(s) == NOISE_ACTION_NONE, "role and action of a new object");
        vf_assert(noise_handshakestate_get_protocol_id(s, &back) == NOISE_ERROR_NONE && back.pattern_id == id.pattern_id && back.dh_id == id.dh_id && back.hybrid_id == id.hybrid_id && back.prefix_id == id.prefix_id &&
                  back.cipher_id == id.cipher_id && back.hash_id == id.hash_id, "protocol identifier of a new object");
        requirements(s, role == NOISE_ROLE_RESPONDER);
        vf_assert(noise_handshakestate_free(s) == NOISE_ERROR_NONE, "free"); vf_cover("supported");
    }
#ifdef VF_SE
    vf_assert(vf_heap_live() == 0, "nothing leaks");
#endif
    vf_cover("end");
}
#else
void harness(void)
{
    int t = PAT0 + choose(PAT1 - PAT0), m, r, hfs, dh, hy = 0; char n[80]; size_t w;
    hfs = t >= 22; dh = 1 + choose(2); if (hfs) hy = 1 + choose(3);
    build(n, choose(2), t, dh, hy, "ChaChaPoly", choose(2) ? "SHA512" : "BLAKE2s");
    sp_hs_name(&sp, n);
    for (r = 0; r < 2; ++r) { hs_new(r, n, 1); requirements(hs[r], r); }
    if (has_tok(sp.p->pre, 'E')) { for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("end"); return; }
    hs_statics();
    for (r = 0; r < 2; ++r) { noise_handshakestate_free(hs[r]); hs_new(r, n, r); hs_keys(r); vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start with exactly the required keys"); }
    sp_start(&sp, prologue, prologue_len, psk);
    for (m = 0; m < sp_nmsgs(&sp); ++m) {
        vf_assert(noise_handshakestate_get_action(hs[dir_at(m)]) == NOISE_ACTION_WRITE_MESSAGE && noise_handshakestate_get_action(hs[!dir_at(m)]) == NOISE_ACTION_READ_MESSAGE, "whose turn it is");
        w = hs_write(m); hs_read(m, w);
    }
    hs_finish();
    vf_cover("end");
}
#endif
