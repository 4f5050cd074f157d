/* K01: honest handshakes.  -DNAMES="a","b",... */
#include "hs.h"
static const char *const names[] = {NAMES};
static void fixed(int r)
{
    NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(hs[r]);
    vf_assert(d && noise_handshakestate_get_fixed_ephemeral_dh(hs[r]) == d, "fixed ephemeral object");
    vf_bytes(fixedk[r], noise_dhstate_get_private_key_length(d), "fixed");
    vf_assert(noise_dhstate_set_keypair_private(d, fixedk[r], noise_dhstate_get_private_key_length(d)) == NOISE_ERROR_NONE, "fixed ephemeral set");
    if (sp.hfs) {
        d = noise_handshakestate_get_fixed_hybrid_dh(hs[r]);
        vf_assert(d != 0, "fixed hybrid object"); vf_bytes(fixedf[r], noise_dhstate_get_private_key_length(d), "fixedf");
        vf_assert(noise_dhstate_set_keypair_private(d, fixedf[r], noise_dhstate_get_private_key_length(d)) == NOISE_ERROR_NONE, "fixed hybrid set");
    } else vf_assert(noise_handshakestate_get_fixed_hybrid_dh(hs[r]) == 0, "no fixed hybrid without hybrid");
}
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int fx = FIXED ? choose(2) : 0, m, r; size_t w;
    sp_hs_name(&sp, name);
    hs_statics();
    sp_start(&sp, prologue, prologue_len, psk);
    for (r = 0; r < 2; ++r) { hs_new(r, name, r); hs_keys(r); if (fx && hs[r]->dh_local_ephemeral) fixed(r); }
    for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE && noise_handshakestate_get_action(hs[r]) == (r ? NOISE_ACTION_READ_MESSAGE : NOISE_ACTION_WRITE_MESSAGE), "start");
    for (m = 0; m < sp_nmsgs(&sp); ++m) {
        sd_generated = 0;
        w = hs_write(m);
        if (fx) { vf_assert(sd_generated == 0, "nothing generated with fixed keys"); vf_assert_eq(sp.e[dir_at(m)].priv, fixedk[dir_at(m)], sp_dhlen(sp.dh), "the fixed ephemeral is the one used"); }
        hs_read(m, w);
    }
    hs_finish();
    vf_cover("end");
}
