/* K07: a peer that follows the protocol but sends key values of its own choosing.  -DNAMES */
#include "hs.h"
static const char *const names[] = {NAMES};
static int isnull[128]; /* by token: 'e','s','f' of the peer is the null value */
/* the documented result of using a null public key is a zero shared secret */
static void null_mask(uint8_t *ss, const SpKey *his) { uint8_t t = 0; int i; for (i = 0; i < his->len; ++i) t |= his->pub[i]; t = t == 0; for (i = 0; i < his->len; ++i) ss[i] &= t - 1; }
/* the peer's message, computed from the specification; the honest side's private keys serve for the shared secrets */
static size_t peer_message(int d, const uint8_t *payload, size_t n, uint8_t *out)
{
    size_t o = 0; uint8_t ss[64]; int me = !d; char t;
    for (; (t = sp.tok[sp.pos]) != 0 && t != '|'; ++sp.pos) {
        switch (t) {
        case 'e': memcpy(out + o, sp.e[d].pub, sp.e[d].len); sp_mix_hash(&sp.ss, out + o, sp.e[d].len); o += sp.e[d].len; if (sp.psk) sp_mix_key(&sp.ss, sp.e[d].pub, sp.e[d].len); break;
        case 's': o += sp_enc(&sp.ss, sp.s[d].pub, sp.s[d].len, out + o); break;
        case 'f': o += sp_enc(&sp.ss, sp.f[d].pub, sp.f[d].len, out + o); break;
        default: {
            int alg = t == '5' ? sp.hy : sp.dh; SpKey *mine, *his; int nul;
            if (t == '1') { mine = &sp.e[me]; his = &sp.e[d]; nul = isnull['e']; }
            else if (t == '5') { mine = &sp.f[me]; his = &sp.f[d]; nul = isnull['f']; }
            else if (t == '4') { mine = &sp.s[me]; his = &sp.s[d]; nul = isnull['s']; }
            else { int init_e = t == '2'; /* es: initiator e, responder s */
                   int mine_e = init_e ? me == 0 : me == 1; mine = mine_e ? &sp.e[me] : &sp.s[me]; his = mine_e ? &sp.s[d] : &sp.e[d]; nul = mine_e ? isnull['s'] : isnull['e']; }
            if (nul) memset(ss, 0, sizeof ss);
            else if (alg == NOISE_DH_NEWHOPE) { if (mine->len == SD_NHA) sd_nh_ss_a(ss, mine->priv, his->pub); else { uint8_t p[SD_NHB]; sd_nh_pub_b(p, ss, mine->priv, his->pub); } }
            else { vf_dh(ss, mine->priv, his->pub, sp_dhlen(alg), sd_alg(alg)); null_mask(ss, his); }
            sp_mix_key(&sp.ss, ss, sp_dhlen(alg)); }
        }
    }
    if (t == '|') ++sp.pos;
    return o + sp_enc(&sp.ss, payload, n, out + o);
}
static void peer_key(SpKey *k, int alg, int first, int null, const char *nm, char tok)
{
    k->len = alg == NOISE_DH_NEWHOPE ? (first ? SD_NHA : SD_NHB) : sp_dhlen(alg);
    if (null) { memset(k->pub, 0, k->len); isnull[(int)tok] = alg != NOISE_DH_NEWHOPE; }
    else { static uint8_t z[64]; vf_bytes(k->pub, k->len, nm); vf_assume(!vf_same(k->pub, z, k->len)); }
}
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int r, m, pos, err; size_t w, n; int nul = choose(4); char which = nul == 1 ? 'e' : nul == 2 ? 's' : nul == 3 ? 'f' : 0; int badkey; NoiseBuffer b, p; uint8_t k[64];
    sp_hs_name(&sp, name);
    r = choose(2);      /* the honest side */
    if (which && !sp_sends(&sp, !r, which) && !(which == 's' && sp_remote_pre(&sp, r))) { vf_stop(); return; }
    vf_bytes(prologue, prologue_len, "prologue"); if (sp.psk) vf_bytes(psk, 32, "psk");
    if (sp_local_static(&sp, r)) { vf_bytes(k, sp_dhlen(sp.dh), "static"); sp_genkey(&sp.s[r], sp.dh, 1, 0, k, 0); }
    if (sp_local_static(&sp, !r)) peer_key(&sp.s[!r], sp.dh, 1, which == 's', "peer-s", 's');
    hs_new(r, name, 0); hs_keys(r);
    if (which == 's' && sp_remote_pre(&sp, r)) vf_assert(noise_dhstate_is_null_public_key(noise_handshakestate_get_remote_public_key_dh(hs[r])), "null static key recorded");
    sp_start(&sp, prologue, prologue_len, psk);
    vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start");
    for (m = 0; m < sp_nmsgs(&sp); ++m) {
        if (dir_at(m) == r) {
            /* shared secrets with the peer's values */
            SpSym at; NoiseBuffer q; n = paylens[m % 3];
            vf_bytes(pay, n, "payload"); memset(msg, 0x77, sizeof msg); noise_buffer_set_output(b, msg, sizeof msg); noise_buffer_set_input(q, pay, n);
            vf_assert(noise_handshakestate_write_message(hs[r], &b, &q) == NOISE_ERROR_NONE, "write");
            (void)at;
            { uint8_t e[64], f[64]; size_t o = 0; char t; uint8_t ss[64]; int d = r;
              if (hs[r]->dh_local_ephemeral) memcpy(e, hs[r]->dh_local_ephemeral->private_key, hs[r]->dh_local_ephemeral->private_key_len);
              if (hs[r]->dh_local_hybrid) memcpy(f, hs[r]->dh_local_hybrid->private_key, hs[r]->dh_local_hybrid->private_key_len);
              hs_expect_keys(m, e, f);
              for (; (t = sp.tok[sp.pos]) != 0 && t != '|'; ++sp.pos) {
                switch (t) {
                case 'e': memcpy(want + o, sp.e[d].pub, sp.e[d].len); sp_mix_hash(&sp.ss, want + o, sp.e[d].len); o += sp.e[d].len; if (sp.psk) sp_mix_key(&sp.ss, sp.e[d].pub, sp.e[d].len); break;
                case 's': o += sp_enc(&sp.ss, sp.s[d].pub, sp.s[d].len, want + o); break;
                case 'f': o += sp_enc(&sp.ss, sp.f[d].pub, sp.f[d].len, want + o); break;
                default: { int alg = t == '5' ? sp.hy : sp.dh, mine_e = t == '1' || (t == '2' ? d == 0 : t == '3' ? d == 1 : 0), his_e = t == '1' || (t == '2' ? d == 1 : t == '3' ? d == 0 : 0);
                    SpKey *mine = t == '5' ? &sp.f[d] : mine_e ? &sp.e[d] : &sp.s[d], *his = t == '5' ? &sp.f[!d] : his_e ? &sp.e[!d] : &sp.s[!d];
                    if (t == '5' ? isnull['f'] : his_e ? isnull['e'] : isnull['s']) memset(ss, 0, sizeof ss);
                    else if (alg == NOISE_DH_NEWHOPE) { if (mine->len == SD_NHA) sd_nh_ss_a(ss, mine->priv, his->pub); else { uint8_t pp[SD_NHB]; sd_nh_pub_b(pp, ss, mine->priv, his->pub); } }
                    else { vf_dh(ss, mine->priv, his->pub, sp_dhlen(alg), sd_alg(alg)); null_mask(ss, his); }
                    sp_mix_key(&sp.ss, ss, sp_dhlen(alg)); }
                }
              }
              if (t == '|') ++sp.pos;
              w = o + sp_enc(&sp.ss, pay, n, want + o); }
            vf_assert(b.size == w, "length"); vf_assert_eq(msg, want, w, "message to the peer");
            continue;
        }
        badkey = 0;
        for (pos = sp.pos; sp.tok[pos] && sp.tok[pos] != '|'; ++pos) {
            char t = sp.tok[pos];
            if (t == 'e') { peer_key(&sp.e[!r], sp.dh, sp.e[r].len == 0, which == 'e', "peer-e", 'e'); badkey |= which == 'e' && sp.dh != NOISE_DH_NEWHOPE; }
            if (t == 'f') { peer_key(&sp.f[!r], sp.hy, sp.f[r].len == 0, which == 'f', "peer-f", 'f'); badkey |= which == 'f' && sp.hy != NOISE_DH_NEWHOPE; }
        }
        n = paylens[m % 3]; vf_bytes(pay, n, "payload"); memset(msg, 0x77, sizeof msg); memset(got, 0x55, sizeof got);
        w = peer_message(!r, pay, n, msg);
        noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, sizeof got);
        err = noise_handshakestate_read_message(hs[r], &b, &p);
        if (badkey) {
            vf_assert(err == NOISE_ERROR_INVALID_PUBLIC_KEY, "a null ephemeral key is refused");
            vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_FAILED && p.size == 0, "and the handshake has failed"); buf_is(got, 0, sizeof got, 0x55, ""); buf_is(msg, 0, w, 0, "");
            noise_handshakestate_free(hs[r]); vf_cover("null"); vf_cover("end"); return;
        }
        vf_assert(err == NOISE_ERROR_NONE && p.size == n, "any other key is accepted");
        vf_assert_eq(got, pay, n, "payload");
    }
    vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_SPLIT, "complete");
    noise_handshakestate_free(hs[r]);
    vf_cover("accepted"); vf_cover("end");
}
