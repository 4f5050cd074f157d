/* K06: fallback.  -DNAMES (original)  -DTO="XXfallback" or "XXfallback+hfs" */
#include "hs.h"
static const char *const names[] = {NAMES};
static int pat_id(const char *s) { return noise_name_to_id(NOISE_PATTERN_CATEGORY, s, strlen(s)); }
static int fb_to(int r) { return HFS ? noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_XX_FALLBACK_HFS) : choose(2) ? noise_handshakestate_fallback(hs[r]) : noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_XX_FALLBACK); }
static void no(int r, int err)      /* fallback refused, nothing changes */
{
    int act = noise_handshakestate_get_action(hs[r]), role = noise_handshakestate_get_role(hs[r]); NoiseProtocolId a, b;
    noise_handshakestate_get_protocol_id(hs[r], &a);
    vf_assert((HFS ? noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_XX_FALLBACK_HFS) : noise_handshakestate_fallback(hs[r])) == err, "fallback is refused with the documented error");
    noise_handshakestate_get_protocol_id(hs[r], &b);
    vf_assert(noise_handshakestate_get_action(hs[r]) == act && noise_handshakestate_get_role(hs[r]) == role && !memcmp(&a, &b, sizeof a), "a refused fallback changes nothing");
}
static void never(int r)    /* targets that are not fallback patterns, or do not fit */
{
    vf_assert(noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_XX) == NOISE_ERROR_NOT_APPLICABLE && noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_IK) == NOISE_ERROR_NOT_APPLICABLE &&
              noise_handshakestate_fallback_to(hs[r], 0) == NOISE_ERROR_NOT_APPLICABLE && noise_handshakestate_fallback_to(hs[r], 12345) == NOISE_ERROR_NOT_APPLICABLE, "not a fallback pattern");
    vf_assert(noise_handshakestate_fallback_to(hs[r], HFS ? NOISE_PATTERN_XX_FALLBACK : NOISE_PATTERN_XX_FALLBACK_HFS) == NOISE_ERROR_NOT_APPLICABLE, "a fallback pattern that does not fit the algorithms is not applicable");
    if (HFS) vf_assert(noise_handshakestate_fallback(hs[r]) == NOISE_ERROR_NOT_APPLICABLE, "XXfallback does not fit a hybrid protocol");
}
static int possible(void) { return has_tok(sp.p->pre, 'S') && sp_nmsgs(&sp) > 1; }
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; static SpHs old; static char n2[64]; size_t w, i, j; int r, m, how, changed; NoiseBuffer b, p; const char *q; NoiseHandshakeState *t; NoiseProtocolId id; uint8_t k[64]; SpKey other;
    sp_hs_name(&sp, name);
    hs_statics(); sp_start(&sp, prologue, prologue_len, psk);
    for (r = 0; r < 2; ++r) { hs_new(r, name, r); hs_keys(r); vf_assert((HFS ? noise_handshakestate_fallback_to(hs[r], NOISE_PATTERN_XX_FALLBACK_HFS) : noise_handshakestate_fallback(hs[r])) == (possible() ? NOISE_ERROR_INVALID_STATE : NOISE_ERROR_NOT_APPLICABLE), "no fallback before the start"); }
    for (r = 0; r < 2; ++r) { no(r, possible() ? NOISE_ERROR_INVALID_STATE : NOISE_ERROR_NOT_APPLICABLE); }
    how = choose(5);
    if (!possible()) {
        for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start");
        w = hs_write(0); no(0, NOISE_ERROR_NOT_APPLICABLE); no(1, NOISE_ERROR_NOT_APPLICABLE); hs_read(0, w); no(1, NOISE_ERROR_NOT_APPLICABLE);
        for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("impossible"); vf_cover("end"); return;
    }
    if (how == 1 || how == 4) {   /* the initiator expects a different responder key */
        vf_bytes(k, sp_dhlen(sp.dh), "other"); sp_genkey(&other, sp.dh, 1, 0, k, 0); vf_assume(!vf_same(other.priv, sp.s[1].priv, other.len));
        vf_assert(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs[0]), other.pub, other.len) == NOISE_ERROR_NONE, "other key");
    }
    for (r = 0; r < 2; ++r) { vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start"); no(r, NOISE_ERROR_INVALID_STATE); }
    /* the first message */
    vf_bytes(pay, 5, "payload"); memset(msg, 0x77, sizeof msg); noise_buffer_set_output(b, msg, sizeof msg); noise_buffer_set_input(p, pay, 5);
    if (how == 2) {     /* nothing was sent: no ephemeral key to go on with */
        msg[0] = 1; b.data = msg; b.size = 0; b.max_size = 0;
        vf_assert(noise_handshakestate_write_message(hs[0], &b, &p) == NOISE_ERROR_INVALID_LENGTH, "no room");
        b.max_size = 3; b.size = 3; noise_buffer_set_output(p, got, sizeof got);
        vf_assert(noise_handshakestate_read_message(hs[1], &b, &p) == NOISE_ERROR_INVALID_LENGTH, "too short");
        no(1, NOISE_ERROR_INVALID_STATE);   /* the responder has seen no ephemeral */
        for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("early"); vf_cover("end"); return;
    }
    vf_assert(noise_handshakestate_write_message(hs[0], &b, &p) == NOISE_ERROR_NONE, "first message"); w = b.size;
    { uint8_t e[64], f[64]; memcpy(e, hs[0]->dh_local_ephemeral->private_key, hs[0]->dh_local_ephemeral->private_key_len); if (hs[0]->dh_local_hybrid) memcpy(f, hs[0]->dh_local_hybrid->private_key, hs[0]->dh_local_hybrid->private_key_len); hs_expect_keys(0, e, f); }
    no(1, NOISE_ERROR_INVALID_STATE); never(0);
    /* the responder reads it */
    if (how == 3) { uint8_t x; vf_bytes(&x, 1, "delta"); vf_assume(x != 0); msg[w - 1] ^= x; }
    noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, sizeof got);
    vf_assert(noise_handshakestate_read_message(hs[1], &b, &p) == (how == 0 ? NOISE_ERROR_NONE : NOISE_ERROR_MAC_FAILURE), "the first message is read, or found wrong");
    if (HFS && how && !noise_dhstate_has_public_key(hs[1]->dh_remote_hybrid)) { no(1, NOISE_ERROR_INVALID_STATE); for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("end"); return; }
    never(1);
    /* fall back */
    old = sp;
    if (!sp_local_static(&old, 0)) {    /* NK: the initiator has no static key to offer in XXfallback */
        vf_assert(fb_to(0) == NOISE_ERROR_NONE && noise_handshakestate_start(hs[0]) == NOISE_ERROR_LOCAL_KEY_REQUIRED, "the greater requirements of the new pattern apply");
        for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("end"); return;
    }
    for (q = name; *q != '_'; ++q) ; i = q + 1 - name; memcpy(n2, name, i);
    for (++q; *q != '_'; ++q) ; memcpy(n2 + i, HFS ? "XXfallback+hfs" : "XXfallback", HFS ? 14 : 10); i += HFS ? 14 : 10;
    for (j = 0; q[j]; ++j) n2[i + j] = q[j]; n2[i + j] = 0;
    vf_assert(fb_to(1) == NOISE_ERROR_NONE, "the responder falls back");
    vf_assert(noise_handshakestate_get_role(hs[1]) == NOISE_ROLE_INITIATOR && noise_handshakestate_get_action(hs[1]) == NOISE_ACTION_NONE, "reversed role of the old responder");
    if (how == 4) {     /* the initiator first tries to read a (non-)answer */
        memset(msg, 0x11, 100); noise_buffer_set_inout(b, msg, 20, 100); noise_buffer_set_output(p, got, sizeof got);
        vf_assert(noise_handshakestate_read_message(hs[0], &b, &p) == NOISE_ERROR_INVALID_LENGTH, "not an answer to the original handshake"); never(0);
    }
    vf_assert(fb_to(0) == NOISE_ERROR_NONE, "the initiator falls back");
    vf_assert(noise_handshakestate_get_role(hs[0]) == NOISE_ROLE_RESPONDER && noise_handshakestate_get_action(hs[0]) == NOISE_ACTION_NONE, "reversed role of the old initiator");
    for (r = 0; r < 2; ++r) { vf_assert(noise_handshakestate_get_protocol_id(hs[r], &id) == NOISE_ERROR_NONE && id.pattern_id == pat_id(HFS ? "XXfallback+hfs" : "XXfallback"), "new pattern id");
        vf_assert(noise_handshakestate_has_local_keypair(hs[r]) && !noise_handshakestate_needs_pre_shared_key(hs[r]) && !noise_handshakestate_has_remote_public_key(hs[r]), "keys after fallback"); }
    changed = choose(2);
    if (changed) { prologue_len = 3; vf_bytes(prologue, 3, "prologue2"); for (r = 0; r < 2; ++r) noise_handshakestate_set_prologue(hs[r], prologue, 3); if (sp.psk) { vf_bytes(psk, 32, "psk2"); for (r = 0; r < 2; ++r) noise_handshakestate_set_pre_shared_key(hs[r], psk, 32); } }
    t = hs[0]; hs[0] = hs[1]; hs[1] = t;
    sp_hs_name(&sp, n2);
    sp.s[0] = old.s[1]; sp.s[1] = old.s[0]; sp.e[1] = old.e[0]; sp.f[1] = old.f[0];
    sp_start(&sp, prologue, prologue_len, psk);
    for (r = 0; r < 2; ++r) { no(r, NOISE_ERROR_NOT_APPLICABLE); vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE && noise_handshakestate_get_action(hs[r]) == (r ? NOISE_ACTION_READ_MESSAGE : NOISE_ACTION_WRITE_MESSAGE), "start of the fallback"); }
    for (m = 0; m < sp_nmsgs(&sp); ++m) { w = hs_write(m); hs_read(m, w); no(0, NOISE_ERROR_NOT_APPLICABLE); }
    hs_finish();
    vf_cover("fallback"); vf_cover("end");
}
