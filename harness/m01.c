/* M01: any allocation failing while objects are made.  -DPART=0|1|2 */
#define VF_OOM_MAIN
#include "vf_oom.h"
#if PART == 2
#include "hs.h"
int vf_oom_pick(void) { return choose(2); }
static const char *const names[] = {NAMES};
#define BEGIN() (vf_oom_failed = 0, h = vf_heap_live(), vf_oom_on = 1)
#define END() (vf_oom_on = 0)
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int r, h, m, e, d; NoiseCipherState *c1 = (NoiseCipherState *)&c1, *c2 = (NoiseCipherState *)&c2; uint8_t p2[7]; NoiseDHState *x; NoiseBuffer b, pb; size_t n;
    sp_hs_name(&sp, name); hs_statics(); hs_new(0, name, 0); hs_new(1, name, 0);
    /* a prologue that cannot be kept */
    r = choose(2); vf_bytes(p2, 7, "other prologue"); if (choose(2)) vf_assert(noise_handshakestate_set_prologue(hs[r], p2, 7) == 0, "first prologue");
    BEGIN(); e = noise_handshakestate_set_prologue(hs[r], p2, 5); END(); vf_assert(e == (vf_oom_failed ? NOISE_ERROR_NO_MEMORY : 0), "prologue"); vf_assert(vf_heap_live() <= h + 1, "nothing leaks"); if (vf_oom_failed) vf_cover("prologue");
    /* objects made on demand */
    if (!hs[r]->dh_local_ephemeral) { vf_assert(!noise_handshakestate_get_fixed_ephemeral_dh(hs[r]), "no ephemeral of its own"); x = 0; goto next; }
    BEGIN(); x = noise_handshakestate_get_fixed_ephemeral_dh(hs[r]); END(); vf_assert((x != 0) == !vf_oom_failed, "fixed ephemeral object"); if (vf_oom_failed) { vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("fixed"); }
    if (x) { uint8_t k[64]; vf_bytes(k, 56, "fixed"); vf_assert(noise_dhstate_set_keypair_private(x, k, noise_dhstate_get_private_key_length(x)) == 0, "fixed key"); }
    else { x = noise_handshakestate_get_fixed_ephemeral_dh(hs[r]); vf_assert(x != 0, "a later attempt works"); { uint8_t k[64]; vf_bytes(k, 56, "fixed"); noise_dhstate_set_keypair_private(x, k, noise_dhstate_get_private_key_length(x)); } }
next:
    if (sp.hy && hs[r]->dh_local_hybrid) { BEGIN(); x = noise_handshakestate_get_fixed_hybrid_dh(hs[r]); END(); vf_assert((x != 0) == !vf_oom_failed, "fixed hybrid object"); if (!x) { vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("hybrid"); } }
    noise_handshakestate_free(hs[0]); noise_handshakestate_free(hs[1]); vf_assert(vf_heap_live() == 0, "everything is freed");
    /* the keys at the end */
    hs_new(0, name, 0); hs_new(1, name, 1); hs_keys(0); hs_keys(1);
    vf_assert(noise_handshakestate_start(hs[0]) == 0 && noise_handshakestate_start(hs[1]) == 0, "started"); n = sp_nmsgs(&sp);
    for (m = 0; m < (int)n; ++m) {
        d = dir_at(m); noise_buffer_set_output(b, msg, sizeof msg); vf_assert(noise_handshakestate_write_message(hs[d], &b, 0) == 0, "write");
        noise_buffer_set_output(pb, got, sizeof got); vf_assert(noise_handshakestate_read_message(hs[!d], &b, &pb) == 0, "read");
    }
    r = choose(2); d = choose(3);
    BEGIN(); e = noise_handshakestate_split(hs[r], d == 2 ? 0 : &c1, d == 1 ? 0 : &c2); END();
    if (vf_oom_failed) {
        vf_assert(e == NOISE_ERROR_NO_MEMORY && (d == 2 || c1 == 0) && (d == 1 || c2 == 0), "out of memory is reported, with no objects"); vf_assert(vf_heap_live() == h, "nothing leaks"); vf_cover("split");
        vf_assert(noise_handshakestate_get_action(hs[r]) == NOISE_ACTION_SPLIT, "not split yet"); e = noise_handshakestate_split(hs[r], d == 2 ? 0 : &c1, d == 1 ? 0 : &c2);
    }
    vf_assert(e == 0 && (d == 2 || c1) && (d == 1 || c2), "split, if need be in a later attempt"); if (d != 2) { vf_assert(noise_cipherstate_has_key(c1), "key"); noise_cipherstate_free(c1); } if (d != 1) { vf_assert(noise_cipherstate_has_key(c2), "key"); noise_cipherstate_free(c2); }
    noise_handshakestate_free(hs[0]); noise_handshakestate_free(hs[1]); vf_assert(vf_heap_live() == 0, "everything is freed"); vf_cover("end");
}
#else
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
static int choose(int n) { int v = vf_u8("choice"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
#ifndef MAXFAIL
#define MAXFAIL 2
#endif
int vf_oom_pick(void) { return vf_oom_failed < MAXFAIL && choose(2); }
void noise_rand_bytes(void *p, size_t n) { memset(p, 0x5a, n); }
static void *obj;
#if PART == 0
static const int ids[] = { NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE, NOISE_SIGN_ED25519, 0 };
static const char *const nm[] = { "ChaChaPoly", "AESGCM", "BLAKE2s", "BLAKE2b", "SHA256", "SHA512", "25519", "448", "NewHope", "Ed25519", "" };
static int kind, by;
static int make(void)
{
    if (kind < 2) return by ? noise_cipherstate_new_by_name((NoiseCipherState **)&obj, nm[kind]) : noise_cipherstate_new_by_id((NoiseCipherState **)&obj, ids[kind]);
    if (kind < 6) return by ? noise_hashstate_new_by_name((NoiseHashState **)&obj, nm[kind]) : noise_hashstate_new_by_id((NoiseHashState **)&obj, ids[kind]);
    if (kind < 9) return by ? noise_dhstate_new_by_name((NoiseDHState **)&obj, nm[kind]) : noise_dhstate_new_by_id((NoiseDHState **)&obj, ids[kind]);
    if (kind < 10) return by ? noise_signstate_new_by_name((NoiseSignState **)&obj, nm[kind]) : noise_signstate_new_by_id((NoiseSignState **)&obj, ids[kind]);
    return noise_randstate_new((NoiseRandState **)&obj);
}
static int drop(void) { return kind < 2 ? noise_cipherstate_free(obj) : kind < 6 ? noise_hashstate_free(obj) : kind < 9 ? noise_dhstate_free(obj) : kind < 10 ? noise_signstate_free(obj) : noise_randstate_free(obj); }
static void pick(void) { kind = choose(11); by = choose(2); }
#else
static const char *const names[] = {NAMES};
static const char *name; static int by, role, sym; static NoiseProtocolId id;
static int make(void)
{
    if (sym) return by ? noise_symmetricstate_new_by_name((NoiseSymmetricState **)&obj, name) : noise_symmetricstate_new_by_id((NoiseSymmetricState **)&obj, &id);
    return by ? noise_handshakestate_new_by_name((NoiseHandshakeState **)&obj, name, role) : noise_handshakestate_new_by_id((NoiseHandshakeState **)&obj, &id, role);
}
static int drop(void) { return sym ? noise_symmetricstate_free(obj) : noise_handshakestate_free(obj); }
static void pick(void) { name = names[choose(sizeof names / sizeof names[0])]; by = choose(2); sym = choose(2); role = sym ? 0 : choose(2) ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR; vf_assert(noise_protocol_name_to_id(&id, name, strlen(name)) == 0, "name"); }
#endif
void harness(void)
{
    int e, h = vf_heap_live(), n0; pick(); obj = &obj;
    vf_oom_on = 1; e = make(); vf_oom_on = 0; n0 = vf_heap_live();
    if (vf_oom_failed) { vf_assert(e == NOISE_ERROR_NO_MEMORY, "out of memory is reported"); vf_assert(obj == 0, "no object is handed out"); vf_assert(n0 == h, "everything allocated is freed"); vf_cover("failed"); if (vf_oom_count) vf_cover("failed later"); e = make(); }
    vf_assert(e == 0 && obj != 0, "an object, if need be in a later attempt"); vf_assert(vf_heap_live() > h, "allocated"); vf_assert(drop() == 0, "freed"); vf_assert(vf_heap_live() == h, "everything is freed"); vf_cover("end");
}
#endif
