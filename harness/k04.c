/* K04: reading and writing handshake messages in buffers of every size.  -DPATS=list of pattern ids  -DHFS
 * Message M of the pattern, in either role, has symbolic sizes and capacities; the ones before it succeed. */
#include "stub_small.h"
static const int pats[] = {PATS};
static unsigned choose(unsigned n) { uint8_t v = vf_u8("choice"); unsigned i; vf_assume(v < n); for (i = 0; i < n; ++i) if (v == i) return i; return 0; }
static size_t any(size_t n, const char *w) { size_t v = vf_size(w); vf_assume(v <= n); return v; }
#define CAP 25
void harness(void)
{
    NoiseProtocolId id; NoiseHandshakeState *s = 0; NoiseDHState *d; int m, t, M = choose(3), act, err = 0, psk = 0, role = choose(2); static uint8_t key[32], big[80], pbig[80];
    memset(&id, 0, sizeof id); memset(key, 1, sizeof key);
    t = choose(sizeof pats / sizeof pats[0]); psk = ALL ? choose(2) : (t + role) & 1;
    id.prefix_id = psk ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD; id.pattern_id = pats[t];
    id.dh_id = id.pattern_id == NOISE_PATTERN_NN && choose(2) ? NOISE_DH_NEWHOPE : NOISE_DH_CURVE25519; id.hybrid_id = HFS ? (!ALL || choose(2) ? NOISE_DH_NEWHOPE : NOISE_DH_CURVE448) : 0; id.cipher_id = NOISE_CIPHER_AESGCM; id.hash_id = NOISE_HASH_SHA256;
    vf_assert(noise_handshakestate_new_by_id(&s, &id, role ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR) == NOISE_ERROR_NONE, "create");
    if ((d = noise_handshakestate_get_local_keypair_dh(s)) != 0) vf_assert(noise_dhstate_set_keypair_private(d, key, d->private_key_len) == NOISE_ERROR_NONE, "local key");
    if ((d = noise_handshakestate_get_remote_public_key_dh(s)) != 0 && noise_handshakestate_needs_remote_public_key(s)) vf_assume(noise_dhstate_set_public_key(d, key, d->public_key_len) == NOISE_ERROR_NONE);
    if (psk) vf_assert(noise_handshakestate_set_pre_shared_key(s, key, 32) == NOISE_ERROR_NONE, "psk");
    vf_assert(noise_handshakestate_start(s) == NOISE_ERROR_NONE, "start");
    for (m = 0; ; ++m) {
        NoiseBuffer b, p, *pp = &p; size_t n, cap, pn, pcap; uint8_t *buf, *pay;
        act = noise_handshakestate_get_action(s);
        if (act != NOISE_ACTION_WRITE_MESSAGE && act != NOISE_ACTION_READ_MESSAGE) { vf_stop(); return; }
        if (m < M) {    /* an earlier message, in ample buffers */
            memset(big, 1, sizeof big); memset(pbig, 1, sizeof pbig);
            if (act == NOISE_ACTION_WRITE_MESSAGE) { b.data = big; b.size = 0; b.max_size = sizeof big; p.data = pbig; p.size = p.max_size = 2; err = noise_handshakestate_write_message(s, &b, &p); }
            else { b.data = big; b.size = b.max_size = 40; p.data = pbig; p.size = 0; p.max_size = sizeof pbig; err = noise_handshakestate_read_message(s, &b, &p); }
            vf_assume(err == NOISE_ERROR_NONE); continue;
        }
        if (act == NOISE_ACTION_WRITE_MESSAGE) {
            cap = any(CAP, "cap"); n = vf_size("stale size"); buf = (uint8_t *)vf_obj(cap, CAP); pn = 0;
            if (choose(2)) { pp = 0; pay = (uint8_t *)vf_obj(1, 1); } else { pn = any(5, "paylen"); pay = (uint8_t *)vf_obj(pn, 5); }
            b.data = buf; b.size = n; b.max_size = cap; p.data = pay; p.size = pn; p.max_size = pn;
            err = noise_handshakestate_write_message(s, &b, pp);
            vf_assert(b.data == buf && b.max_size == cap, "the buffer descriptor keeps its place and capacity");
            if (err == NOISE_ERROR_NONE) {
                vf_assert(b.size <= cap && b.size >= pn, "the message lies within the buffer"); vf_cover("written");
                vf_assert(noise_handshakestate_get_action(s) == NOISE_ACTION_READ_MESSAGE || noise_handshakestate_get_action(s) == NOISE_ACTION_SPLIT, "action after writing");
            } else {
                vf_assert(b.size == 0 && noise_handshakestate_get_action(s) == NOISE_ACTION_FAILED, "a failed write leaves the message empty");
                vf_assert(err == NOISE_ERROR_INVALID_LENGTH || err == NOISE_ERROR_SYSTEM || err == NOISE_ERROR_INVALID_PUBLIC_KEY, "documented error");
                if (err == NOISE_ERROR_INVALID_LENGTH) vf_cover("no room");
            }
            if (pp) vf_assert(p.data == pay && p.size == pn && p.max_size == pn, "the payload descriptor is untouched");
        } else {
            n = any(CAP, "size"); cap = vf_size("msg cap"); buf = (uint8_t *)vf_obj(n, CAP); pcap = any(CAP, "paycap"); pay = (uint8_t *)vf_obj(pcap, CAP); if (choose(2)) pp = 0;
            b.data = buf; b.size = n; b.max_size = cap; p.data = pay; p.size = vf_size("stale size"); p.max_size = pcap;
            err = noise_handshakestate_read_message(s, &b, pp);
            if (cap < n) { vf_assert(err == NOISE_ERROR_INVALID_LENGTH && noise_handshakestate_get_action(s) == NOISE_ACTION_READ_MESSAGE, "a message larger than its buffer is refused"); vf_cover("inconsistent"); }
            if (err == NOISE_ERROR_NONE) { if (pp) vf_assert(p.size <= pcap && p.size <= n, "the payload lies within the buffer"); vf_cover("read"); }
            else { if (pp) vf_assert(p.size == 0, "a failed read delivers nothing"); if (err == NOISE_ERROR_INVALID_LENGTH) vf_cover("bad length"); }
            vf_assert(b.data == buf && b.size == n && b.max_size == cap && p.data == pay && p.max_size == pcap, "buffer descriptors keep their places and capacities");
        }
        free(pay); free(buf);
        break;
    }
    vf_assert(noise_handshakestate_free(s) == NOISE_ERROR_NONE, "free");
    vf_cover("end");
}
