/* K02: only the operation the action reports is accepted; failure and completion are final.  -DNAMES */
#include "hs.h"
static const char *const names[] = {NAMES};
static int after_psk(void) { return sp.psk ? NOISE_ERROR_INVALID_STATE : NOISE_ERROR_NOT_APPLICABLE; }
/* every operation other than the one allowed now is refused, and has no effect (the run goes on and stays exact) */
static void refused(int r)
{
    static uint8_t a[40], p[40]; NoiseBuffer b, q; NoiseCipherState *c1 = (NoiseCipherState *)a, *c2 = 0; int act = noise_handshakestate_get_action(hs[r]);
    if (act != NOISE_ACTION_WRITE_MESSAGE) {
        memset(a, 0x31, sizeof a); noise_buffer_set_inout(b, a, 7, sizeof a); noise_buffer_set_input(q, p, 3);
        vf_assert(noise_handshakestate_write_message(hs[r], &b, &q) == NOISE_ERROR_INVALID_STATE && b.size == 0 && b.data == a, "writing is refused"); buf_is(a, 0, sizeof a, 0x31, "");
    }
    if (act != NOISE_ACTION_READ_MESSAGE) {
        memset(a, 0x31, sizeof a); memset(p, 0x32, sizeof p); noise_buffer_set_inout(b, a, sizeof a, sizeof a); noise_buffer_set_inout(q, p, 9, sizeof p);
        vf_assert(noise_handshakestate_read_message(hs[r], &b, &q) == NOISE_ERROR_INVALID_STATE && q.size == 0, "reading is refused"); buf_is(p, 0, sizeof p, 0x32, "");
    }
    if (act != NOISE_ACTION_SPLIT) {
        c1 = (NoiseCipherState *)a;
        vf_assert(noise_handshakestate_split(hs[r], &c1, &c2) == NOISE_ERROR_INVALID_STATE && noise_handshakestate_split(hs[r], &c1, 0) == NOISE_ERROR_INVALID_STATE && noise_handshakestate_split(hs[r], 0, &c2) == NOISE_ERROR_INVALID_STATE, "splitting is refused");
        vf_assert((c1 == 0 || c1 == (NoiseCipherState *)a) && c2 == 0, "no cipher is handed out");
    }
    vf_assert(noise_handshakestate_split(hs[r], 0, 0) == NOISE_ERROR_INVALID_PARAM, "splitting into nothing is refused");
    if (act != NOISE_ACTION_SPLIT && act != NOISE_ACTION_COMPLETE) {
        memset(p, 0x32, sizeof p);
        vf_assert(noise_handshakestate_get_handshake_hash(hs[r], p, sizeof p) == NOISE_ERROR_INVALID_STATE, "no handshake hash yet"); buf_is(p, 0, sizeof p, 0x32, "");
    }
    if (act != NOISE_ACTION_NONE) {
        vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_INVALID_STATE, "no second start");
        vf_assert(noise_handshakestate_set_prologue(hs[r], a, 4) == NOISE_ERROR_INVALID_STATE, "no late prologue");
        vf_assert(noise_handshakestate_set_pre_shared_key(hs[r], a, 32) == after_psk(), "no late pre-shared key");
    }
    vf_assert(noise_handshakestate_get_action(hs[r]) == act, "the action is unchanged");
}
static void dead(int r)
{
    vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_FAILED, "the handshake has failed");
    refused(r); refused(r);
}
static void end(void) { int r; for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_free(hs[r]) == NOISE_ERROR_NONE, "free"); }
static void bad_write(int m)
{
    int d = dir_at(m), how = choose(3); NoiseBuffer b, p; size_t n = paylens[m % 3], w; static uint8_t big[600]; SpHs save = sp;
    (void)save;
    vf_bytes(pay, n, "payload"); noise_buffer_set_input(p, pay, n);
    memset(msg, 0x77, sizeof msg);
    /* the length the message will have: computed by the specification on a copy with dummy keys */
    { uint8_t z[64]; SpHs t; memset(z, 1, 64); t = sp; hs_expect_keys(m, z, z); w = sp_message(&sp, d, pay, n, want, 0, 0, 0); sp = t; }
    w = how == 0 ? w - 1 : how == 1 ? 0 : w > 40 ? 36 : w - 6;
    noise_buffer_set_output(b, msg, w); (void)big;
    vf_assert(noise_handshakestate_write_message(hs[d], &b, &p) == NOISE_ERROR_INVALID_LENGTH && b.size == 0, "a message that does not fit is refused");
    buf_is(msg, w, sizeof msg, 0x77, "write");
    dead(d); vf_cover("failed-write");
}
static void bad_read(int m, size_t w)
{
    int d = !dir_at(m), how = choose(3), any = 0, err; NoiseBuffer b, p; size_t i, v = w; uint8_t x;
    memset(got, 0x55, sizeof got);
    if (how == 0) { if (cenc[ncut - 1]) { vf_bytes(&x, 1, "delta"); vf_assume(x != 0); msg[w - 1] ^= x; } else v = cut[0] - 1; }
    if (how == 1) v = 0;
    noise_buffer_set_output(p, got, how == 2 && paylens[m % 3] ? paylens[m % 3] - 1 : sizeof got);
    if (how == 2 && !paylens[m % 3]) { v = cut[0] - 1; }
    noise_buffer_set_inout(b, msg, v, w);
    err = noise_handshakestate_read_message(hs[d], &b, &p); (void)any; (void)i;
    vf_assert(err == (how == 0 && v == w ? NOISE_ERROR_MAC_FAILURE : NOISE_ERROR_INVALID_LENGTH), "a bad message is refused with the right error");
    vf_assert(p.size == 0, "no payload is delivered"); buf_is(got, 0, sizeof got, 0x55, "");
    buf_is(msg, 0, v, 0, "the message is cleared");
    dead(d); vf_cover("failed-read");
}
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int m, r, stop; size_t w;
    NoiseBuffer b, p; NoiseCipherState *c1 = 0, *c2 = 0;
    sp_hs_name(&sp, name);
    hs_statics();
    sp_start(&sp, prologue, prologue_len, psk);
    for (r = 0; r < 2; ++r) { hs_new(r, name, !r); refused(r); hs_keys(r); refused(r); }
    for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start");
    for (m = 0; m < sp_nmsgs(&sp); ++m) {
        for (r = 0; r < 2; ++r) refused(r);
        stop = choose(3);
        if (stop == 1) { bad_write(m); end(); vf_cover("end"); return; }
        w = hs_write(m);
        for (r = 0; r < 2; ++r) refused(r);
        if (stop == 2) { bad_read(m, w); end(); vf_cover("end"); return; }
        /* calls with missing arguments change nothing */
        r = !dir_at(m); noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, 64);
        { NoiseBuffer nb = b, np = p; nb.data = 0; np.data = 0;
          vf_assert(noise_handshakestate_read_message(hs[r], 0, &p) == NOISE_ERROR_INVALID_PARAM && noise_handshakestate_read_message(hs[r], &nb, &p) == NOISE_ERROR_INVALID_PARAM && noise_handshakestate_read_message(hs[r], &b, &np) == NOISE_ERROR_INVALID_PARAM && noise_handshakestate_read_message(0, &b, &p) == NOISE_ERROR_INVALID_PARAM, "missing arguments");
          nb = b; nb.max_size = w - 1; vf_assert(noise_handshakestate_read_message(hs[r], &nb, &p) == NOISE_ERROR_INVALID_LENGTH, "impossible buffer"); }
        hs_read(m, w);
    }
    for (r = 0; r < 2; ++r) refused(r);
    if (choose(2)) { vf_assert(noise_handshakestate_split(hs[0], &c1, 0) == NOISE_ERROR_NONE && c1, "split for sending only"); refused(0); noise_cipherstate_free(c1);
                     vf_assert(noise_handshakestate_split(hs[1], 0, &c2) == NOISE_ERROR_NONE && c2, "split for receiving only"); refused(1); noise_cipherstate_free(c2);
                     for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_COMPLETE, "complete"); end(); }
    else hs_finish();
    vf_cover("split"); vf_cover("end");
}
