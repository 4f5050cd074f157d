/* K05: what must be supplied before start, and that what was supplied is used.  -DNAMES */
#include "hs.h"
static const char *const names[] = {NAMES};
static uint8_t junk[64];
static void accessors(int r, int haslocal, int hasremote, int haspsk)
{
    int L = sp_local_static(&sp, r), R = sp_local_static(&sp, !r), P = sp_remote_pre(&sp, r);
    vf_assert((noise_handshakestate_get_local_keypair_dh(hs[r]) != 0) == L, "a local static key object exists exactly when the pattern uses one");
    vf_assert((noise_handshakestate_get_remote_public_key_dh(hs[r]) != 0) == R, "a remote static key object exists exactly when the pattern uses one");
    vf_assert(!!noise_handshakestate_needs_local_keypair(hs[r]) == (L && !haslocal), "needs_local_keypair");
    vf_assert(!!noise_handshakestate_has_local_keypair(hs[r]) == (L && haslocal), "has_local_keypair");
    vf_assert(!!noise_handshakestate_needs_remote_public_key(hs[r]) == (P && !hasremote), "needs_remote_public_key");
    vf_assert(!!noise_handshakestate_has_remote_public_key(hs[r]) == (R && hasremote), "has_remote_public_key");
    vf_assert(!!noise_handshakestate_needs_pre_shared_key(hs[r]) == (sp.psk && !haspsk), "needs_pre_shared_key");
    vf_assert(!!noise_handshakestate_has_pre_shared_key(hs[r]) == (sp.psk && haspsk), "has_pre_shared_key");
}
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int r, o, loc, rem, ps, err, want_err, m, fb, prolog = 0; size_t w;
    sp_hs_name(&sp, name); fb = has_tok(sp.p->pre, 'E');
    hs_statics();
    r = choose(2); o = !r;
    hs_new(0, name, 0); hs_new(1, name, 1);
    if (!fb) hs_keys(o);
    accessors(r, 0, 0, 0);
    vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], junk, 31) == NOISE_ERROR_INVALID_LENGTH && noise_handshakestate_set_pre_shared_key(hs[r], junk, 33) == NOISE_ERROR_INVALID_LENGTH && noise_handshakestate_set_pre_shared_key(hs[r], junk, 0) == NOISE_ERROR_INVALID_LENGTH, "pre-shared key length");
    vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], 0, 32) == NOISE_ERROR_INVALID_PARAM && noise_handshakestate_set_prologue(hs[r], 0, 4) == NOISE_ERROR_INVALID_PARAM, "missing arguments");
    if (!sp.psk) vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], junk, 32) == NOISE_ERROR_NOT_APPLICABLE, "pre-shared key without NoisePSK");
    loc = sp_local_static(&sp, r) ? choose(3) : 0;      /* none, public part only, keypair */
    rem = sp_local_static(&sp, !r) ? choose(2) : 0;
    ps = sp.psk ? choose(2) : 0;
    vf_bytes(junk, sizeof junk, "junk");
    if (loc == 1) noise_dhstate_set_public_key(noise_handshakestate_get_local_keypair_dh(hs[r]), sp.s[r].pub, sp.s[r].len);
    if (loc == 2) noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(hs[r]), sp.s[r].priv, sp.s[r].len);
    if (rem) noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs[r]), sp.s[!r].pub, sp.s[!r].len);
    if (ps) { vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], junk, 32) == NOISE_ERROR_NONE && noise_handshakestate_set_pre_shared_key(hs[r], psk, 32) == NOISE_ERROR_NONE, "pre-shared key"); }
    switch (prolog = choose(4)) {   /* the latest prologue counts */
    case 0: vf_assert(noise_handshakestate_set_prologue(hs[r], junk, 7) == NOISE_ERROR_NONE && noise_handshakestate_set_prologue(hs[r], prologue, prologue_len) == NOISE_ERROR_NONE, "prologue"); break;
    case 1: vf_assert(noise_handshakestate_set_prologue(hs[r], junk, prologue_len) == NOISE_ERROR_NONE && noise_handshakestate_set_prologue(hs[r], prologue, prologue_len) == NOISE_ERROR_NONE, "prologue"); break;
    case 2: vf_assert(noise_handshakestate_set_prologue(hs[r], junk, 0) == NOISE_ERROR_NONE && noise_handshakestate_set_prologue(hs[r], prologue, prologue_len) == NOISE_ERROR_NONE, "prologue"); break;
    case 3: prologue_len = 0; if (!fb) noise_handshakestate_set_prologue(hs[o], junk, 0); if (choose(2)) vf_assert(noise_handshakestate_set_prologue(hs[r], junk, 5) == NOISE_ERROR_NONE && noise_handshakestate_set_prologue(hs[r], junk, 0) == NOISE_ERROR_NONE, "prologue"); break;
    }
    accessors(r, loc == 2, rem, ps);
    err = noise_handshakestate_start(hs[r]);
    if (fb) { vf_assert(err == NOISE_ERROR_NOT_APPLICABLE, "a fallback pattern cannot be started directly"); vf_cover("fallback"); want_err = 1; }
    else {
        int ml = sp_local_static(&sp, r) && loc != 2, mr = sp_remote_pre(&sp, r) && !rem, mp = sp.psk && !ps;
        want_err = ml || mr || mp;
        if (!want_err) vf_assert(err == NOISE_ERROR_NONE, "everything is there");
        else vf_assert((ml && err == NOISE_ERROR_LOCAL_KEY_REQUIRED) || (mr && err == NOISE_ERROR_REMOTE_KEY_REQUIRED) || (mp && err == NOISE_ERROR_PSK_REQUIRED), "the missing key is reported");
    }
    vf_assert(noise_handshakestate_get_action(hs[r]) == (want_err ? NOISE_ACTION_NONE : r ? NOISE_ACTION_READ_MESSAGE : NOISE_ACTION_WRITE_MESSAGE), "nothing starts after an error");
    if (fb) { noise_handshakestate_free(hs[0]); noise_handshakestate_free(hs[1]); vf_cover("end"); return; }
    if (want_err) {     /* supply the rest */
        accessors(r, loc == 2, rem, ps);
        if (sp_local_static(&sp, r) && loc != 2) vf_assert(noise_dhstate_set_keypair(noise_handshakestate_get_local_keypair_dh(hs[r]), sp.s[r].priv, sp.s[r].len, sp.s[r].pub, sp.s[r].len) == NOISE_ERROR_NONE, "keypair");
        if (sp_remote_pre(&sp, r) && !rem) noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs[r]), sp.s[!r].pub, sp.s[!r].len);
        if (sp.psk && !ps) noise_handshakestate_set_pre_shared_key(hs[r], psk, 32);
        vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start after supplying the missing keys"); vf_cover("late");
    }
    vf_assert(noise_handshakestate_start(hs[o]) == NOISE_ERROR_NONE, "start of the other side");
    sp_start(&sp, prologue, prologue_len, psk);
    for (m = 0; m < sp_nmsgs(&sp); ++m) { w = hs_write(m); hs_read(m, w); }
    hs_finish();
    vf_cover("end");
}
