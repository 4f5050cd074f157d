/* K03: one change in transit, or one mismatch of configuration, is always detected.  -DNAMES  -DMISMATCH */
#include "hs.h"
static const char *const names[] = {NAMES};
static void zero_on_fail(NoiseBuffer *b, NoiseBuffer *p, int r)
{
    vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_FAILED, "failed");
    vf_assert(p->size == 0, "no payload is delivered"); buf_is(got, 0, sizeof got, 0x55, "");
    buf_is(b->data, 0, b->size, 0, "cleared");
}
static int rd(int m, size_t w, int *size)
{
    NoiseBuffer b, p; int err, r = !dir_at(m);
    memset(got, 0x55, sizeof got); noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, sizeof got);
    err = noise_handshakestate_read_message(hs[r], &b, &p); *size = (int)p.size;
    if (err) zero_on_fail(&b, &p, r);
    return err;
}
static size_t wr(int m)
{
    NoiseBuffer b, p; int d = dir_at(m); size_t n = paylens[m % 3];
    vf_bytes(pay, n, "payload"); noise_buffer_set_output(b, msg, sizeof msg); noise_buffer_set_input(p, pay, n);
    vf_assert(noise_handshakestate_write_message(hs[d], &b, &p) == NOISE_ERROR_NONE, "the deceived party goes on");
    return b.size;
}
static void end(void) { int r; for (r = 0; r < 2; ++r) noise_handshakestate_free(hs[r]); vf_cover("end"); }
static void tampered(void)
{
    int m, at, kind, r, c, err, size; size_t w, v, i, from; static uint8_t del[64], orig[600]; int any = 0;
    for (r = 0; r < 2; ++r) { hs_new(r, sp.name, r); hs_keys(r); vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start"); }
    at = choose(sp_nmsgs(&sp));
    for (m = 0; m < at; ++m) { w = hs_write(m); hs_read(m, w); }
    w = v = hs_write(m); c = choose(ncut); kind = choose(4); from = c ? cut[c - 1] : 0;
    memcpy(orig, msg, w);
    if (kind == 0) {        /* any change of any of the field's bytes */
        size_t n = cut[c] - from; if (!n) { vf_stop(); return; }
        if (n > 64) n = 64;
        vf_bytes(del, n, "delta"); for (i = 0; i < n; ++i) { any |= del[i]; msg[from + i] ^= del[i]; } vf_assume(any != 0);
    } else if (kind == 1) { v = from; }                     /* cut before the field */
    else if (kind == 2) { if (cut[c] == from) { vf_stop(); return; } v = cut[c] - 1; }      /* cut inside */
    else { vf_bytes(msg + w, 1, "extra"); v = w + 1; }                       /* a byte added */
    if (v == w && kind != 0) { vf_stop(); return; }
    err = rd(m, v, &size);
    if (cenc[ncut - 1]) {
        vf_assert(err != NOISE_ERROR_NONE, "detected on reading this message");
        vf_assert(err == NOISE_ERROR_MAC_FAILURE || (err == NOISE_ERROR_INVALID_LENGTH && kind != 0) || err == NOISE_ERROR_INVALID_PUBLIC_KEY, "documented error");
        vf_cover("detected-now");
    } else {
        vf_assert(at == 0 && sp_nmsgs(&sp) > 1, "only a first message is unauthenticated");
        if (err != NOISE_ERROR_NONE) { vf_assert(err == NOISE_ERROR_INVALID_LENGTH || err == NOISE_ERROR_INVALID_PUBLIC_KEY, "documented error"); vf_cover("detected-now"); }
        else {
            vf_assert(noise_handshakestate_get_action(hs[1]) == NOISE_ACTION_WRITE_MESSAGE, "next action");
            w = wr(1);
            vf_assert(rd(1, w, &size) == NOISE_ERROR_MAC_FAILURE, "detected by the next authenticated field");
            vf_cover("detected-next");
        }
    }
    end();
}
static uint8_t psk2[32], pro2[8];
static void mismatch(void)
{
    int kind = choose(6), r, m, err = 0, size, any = 0; size_t w, i; const char *n2 = sp.name; static char alt[64]; uint8_t k[64]; char *q;
    memcpy(alt, sp.name, strlen(sp.name) + 1);
    if (kind == 2 && !sp.psk) { vf_stop(); return; }
    if (kind == 3 && !sp_remote_pre(&sp, 0) && !sp_remote_pre(&sp, 1)) { vf_stop(); return; }
    if (kind == 4) { for (q = alt; !(q[0] == '_' && (q[1] == 'C' || q[1] == 'A') && (q[2] == 'h' || q[2] == 'E')); ++q) ;
        { static char t[64]; size_t pre = q + 1 - alt; memcpy(t, alt, pre); if (q[1] == 'C') { memcpy(t + pre, "AESGCM", 6); strcpy(t + pre + 6, q + 11); } else { memcpy(t + pre, "ChaChaPoly", 10); strcpy(t + pre + 10, q + 7); } n2 = t; } }
    if (kind == 5) { i = strlen(alt); if (alt[i - 1] == '6') { memcpy(alt + i - 6, "BLAKE2s", 8); } else if (alt[i - 1] == '2') memcpy(alt + i - 6, "BLAKE2b", 8); else if (alt[i - 1] == 's') memcpy(alt + i - 7, "SHA256", 7); else memcpy(alt + i - 7, "SHA512", 7); n2 = alt; }
    for (r = 0; r < 2; ++r) { hs_new(r, r ? n2 : sp.name, r); hs_keys(r); }
    if (kind == 0) { size_t n = prologue_len; memcpy(pro2, prologue, n); vf_bytes(psk2, n, "delta"); for (i = 0; i < n; ++i) { any |= psk2[i]; pro2[i] ^= psk2[i]; } vf_assume(any != 0); noise_handshakestate_set_prologue(hs[1], pro2, n); }
    if (kind == 1) { memcpy(pro2, prologue, prologue_len); vf_bytes(pro2 + prologue_len, 1, "extra"); noise_handshakestate_set_prologue(hs[choose(2)], pro2, choose(2) ? prologue_len + 1 : prologue_len - 1); }
    if (kind == 2) { uint8_t d[32]; vf_bytes(d, 32, "delta"); for (i = 0; i < 32; ++i) { any |= d[i]; psk2[i] = psk[i] ^ d[i]; } vf_assume(any != 0); noise_handshakestate_set_pre_shared_key(hs[1], psk2, 32); }
    if (kind == 3) { int w0 = sp_remote_pre(&sp, 0) && (!sp_remote_pre(&sp, 1) || choose(2)) ? 0 : 1; SpKey o; vf_bytes(k, sp_dhlen(sp.dh), "other"); sp_genkey(&o, sp.dh, 1, 0, k, 0);
        vf_assume(!vf_same(o.priv, sp.s[!w0].priv, o.len));
        vf_assert(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs[w0]), o.pub, o.len) == NOISE_ERROR_NONE, "other key"); }
    for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start");
    for (m = 0; m < sp_nmsgs(&sp) && m < 2; ++m) { w = wr(m); err = rd(m, w, &size); if (err) break; }
    vf_assert(err == NOISE_ERROR_MAC_FAILURE, "the mismatch is detected at the first authenticated field");
    vf_assert(noise_handshakestate_get_action(hs[!dir_at(m)]) == NOISE_ACTION_FAILED, "failed");
    vf_cover("mismatch"); end();
}
void harness(void)
{
    sp_hs_name(&sp, names[choose(sizeof names / sizeof names[0])]);
    hs_statics(); sp_start(&sp, prologue, prologue_len, psk);
    if (MISMATCH) mismatch(); else tampered();
}
