/* Z01: nothing computed from a secret is left in memory that is given back.
 * The rule itself (every block handed to free, every array of a returning protocol function) is checked by the
 * executor, see checks/wipe.py; the harness makes objects, fills them with symbolic secrets, and releases or clears them.
 * -DPART=0 single objects over the real back ends, 1 handshakes and symmetric objects over ideal primitives */
#if PART == 1
#include "hs.h"
static const char *const names[] = {NAMES};
void harness(void)
{
    const char *name = names[choose(sizeof names / sizeof names[0])]; int m, n, stop, r, how; size_t w; NoiseCipherState *c1 = 0, *c2 = 0;
    sp_hs_name(&sp, name); hs_statics(); sp_start(&sp, prologue, prologue_len, psk);
    for (r = 0; r < 2; ++r) { hs_new(r, name, r); hs_keys(r); }
    n = sp_nmsgs(&sp); stop = (int)choose((unsigned)n + 2); how = (int)choose(4);
    if (how == 1 && stop == 0) { vf_bytes(psk, 32, "psk2"); if (sp.psk) noise_handshakestate_set_pre_shared_key(hs[0], psk, 32); noise_handshakestate_set_prologue(hs[0], psk, 9); goto out; }
    if (how == 2 && stop == 0 && hs[0]->dh_local_ephemeral) { uint8_t k[64]; NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(hs[0]); vf_bytes(k, 56, "fixed"); noise_dhstate_set_keypair_private(d, k, noise_dhstate_get_private_key_length(d)); goto out; }
    for (r = 0; r < 2; ++r) vf_assert(noise_handshakestate_start(hs[r]) == NOISE_ERROR_NONE, "start");
    for (m = 0; m < n && m < stop; ++m) {
        if (m == stop - 1 && how) {      /* the last message goes wrong on one side */
            NoiseBuffer b, p; int d = dir_at(m), e;
            if (how == 1) { noise_buffer_set_output(b, msg, 20); e = noise_handshakestate_write_message(hs[d], &b, 0); if (e) vf_cover("failed write"); goto out; }
            w = hs_write(m);
            if (how == 2) msg[w - 1] ^= 1; else --w;
            noise_buffer_set_inout(b, msg, w, w); noise_buffer_set_output(p, got, sizeof got);
            e = noise_handshakestate_read_message(hs[!d], &b, &p); if (e) vf_cover("failed read"); goto out;
        }
        w = hs_write(m); hs_read(m, w);
    }
    if (stop == n + 1) {
        uint8_t h[64]; NoiseBuffer b; r = (int)choose(2);
        vf_assert(noise_handshakestate_get_handshake_hash(hs[r], h, 64) == NOISE_ERROR_NONE, "handshake hash");
        vf_assert(noise_handshakestate_split(hs[r], how == 1 ? 0 : &c1, how == 2 ? 0 : &c2) == NOISE_ERROR_NONE, "split");
        /* the chaining key and handshake keys are of no more use */
        if (c1) { memset(msg, 3, 8); noise_buffer_set_inout(b, msg, 8, 100); vf_assert(noise_cipherstate_encrypt(c1, &b) == NOISE_ERROR_NONE, "transport"); noise_cipherstate_free(c1); }
        if (c2) noise_cipherstate_free(c2);
        vf_cover("split");
    }
out:
    noise_handshakestate_free(hs[0]); noise_handshakestate_free(hs[1]); vf_assert(vf_heap_live() == 0, "all released"); vf_cover("end");
}
#else
#include "vf.h"
#include <noise/protocol.h>
#include "protocol/internal.h"
#include "crypto/newhope/newhope.h"
static int choose(int n) { int v = vf_u8("choice"), i; vf_assume(v < n); for (i = 0; i < n - 1; ++i) if (v == i) return i; return n - 1; }
void noise_rand_bytes(void *p, size_t n) { vf_bytes(p, n, "random"); }
#if !USE_LIBSODIUM
void newhope_keygen(unsigned char *send, poly *sk, const unsigned char *rd) { uint8_t t[64]; (void)rd; vf_bytes(t, 64, "nh secret"); memcpy(sk, t, 64); memcpy((uint8_t *)sk + 1900, t, 64); memset(send, 7, NEWHOPE_SENDABYTES); }
void newhope_sharedb(unsigned char *ss, unsigned char *send, const unsigned char *rcv, const unsigned char *rd) { (void)rcv; (void)rd; vf_bytes(ss, 32, "nh shared"); memset(send, 9, NEWHOPE_SENDBBYTES); }
void newhope_shareda(unsigned char *ss, const poly *sk, const unsigned char *rcv) { (void)sk; (void)rcv; vf_bytes(ss, 32, "nh shared"); }
#endif
static uint8_t key[64], data[300], pub[2100], out[2100];
static void is_clear(const void *o) { vf_assert(vf_is_const(o, *(const size_t *)o), "nothing of the secret is left in a cleared object"); vf_cover("cleared"); }
static const int ciphers[] = { NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM }, hashes[] = { NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512 };
static void cipher(int id)
{
    NoiseCipherState *s = 0; NoiseBuffer b; vf_assert(noise_cipherstate_new_by_id(&s, id) == 0, "cipher");
    vf_assert(noise_cipherstate_init_key(s, key, 32) == 0, "key");
    if (id == NOISE_CIPHER_CHACHAPOLY && choose(2)) { noise_buffer_set_inout(b, data, 40, 300); vf_assert(noise_cipherstate_encrypt(s, &b) == 0, "encrypt"); }
    noise_cipherstate_free(s);
}
static void hash(int id)
{
    NoiseHashState *s = 0; uint8_t o[64], o2[64]; vf_assert(noise_hashstate_new_by_id(&s, id) == 0, "hash");
    switch (choose(4)) {
    case 0: vf_assert(noise_hashstate_reset(s) == 0 && noise_hashstate_update(s, data, 70) == 0, "update"); break;
    case 1: vf_assert(noise_hashstate_hash_one(s, data, 20, o, noise_hashstate_get_hash_length(s)) == 0, "hash"); break;
    case 2: vf_assert(noise_hashstate_hkdf(s, key, 32, data, 32, o, 32, o2, 32) == 0, "hkdf"); break;
    default: vf_assert(noise_hashstate_pbkdf2(s, key, 8, data, 8, 2, o, 20) == 0, "pbkdf2");
    }
    noise_hashstate_free(s);
}
static void dh(int id, int role)
{
    NoiseDHState *s = 0, *t = 0; int how = choose(5), e;
    vf_assert(noise_dhstate_new_by_id(&s, id) == 0 && noise_dhstate_new_by_id(&t, id) == 0, "dh");
    if (role) { noise_dhstate_set_role(s, role); noise_dhstate_set_role(t, role == NOISE_ROLE_RESPONDER ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); }
    if (id == NOISE_DH_NEWHOPE && role == NOISE_ROLE_RESPONDER) {
        memset(pub, 5, sizeof pub); vf_assert(noise_dhstate_set_public_key(t, pub, noise_dhstate_get_public_key_length(t)) == 0, "peer");
        e = how == 1 ? noise_dhstate_set_keypair_private(s, key, noise_dhstate_get_private_key_length(s)) : noise_dhstate_generate_dependent_keypair(s, t);
    } else e = how == 1 ? noise_dhstate_set_keypair_private(s, key, noise_dhstate_get_private_key_length(s)) : noise_dhstate_generate_keypair(s);
    vf_assert(e == 0, "a key pair");
    if (how == 2) { vf_assert(noise_dhstate_clear_key(s) == 0, "clear"); is_clear(s); }
    if (how == 3) { memset(pub, 5, sizeof pub); vf_assert(noise_dhstate_set_public_key(s, pub, noise_dhstate_get_public_key_length(s)) == 0, "another public key"); is_clear(s); }
    if (how == 4 && id != NOISE_DH_NEWHOPE) {
        memset(pub, 5, sizeof pub); pub[0] = 1; vf_assert(noise_dhstate_set_public_key(t, pub, noise_dhstate_get_public_key_length(t)) == 0, "peer");
        noise_dhstate_calculate(s, t, out, noise_dhstate_get_shared_key_length(s));
    }
    noise_dhstate_free(s); noise_dhstate_free(t);
}
static void sign(void)
{
    NoiseSignState *s = 0; int how = choose(5); uint8_t sg[64]; vf_assert(noise_signstate_new_by_id(&s, NOISE_SIGN_ED25519) == 0, "sign");
    vf_assert((how == 1 ? noise_signstate_set_keypair_private(s, key, 32) : noise_signstate_generate_keypair(s)) == 0, "a key pair");
    if (how == 2) { vf_assert(noise_signstate_clear_key(s) == 0, "clear"); is_clear(s); }
    if (how == 3) { memset(pub, 5, 32); vf_assert(noise_signstate_set_public_key(s, pub, 32) == 0, "another public key"); is_clear(s); }
    if (how == 4) vf_assert(noise_signstate_sign(s, data, 4, sg, 64) == 0, "sign");
    noise_signstate_free(s);
}
void harness(void)
{
    vf_bytes(key, 64, "key"); vf_bytes(data, 100, "data");
#if KIND < 2
    cipher(ciphers[KIND]);
#elif KIND < 6
    hash(hashes[KIND - 2]);
#elif KIND == 6
    dh(NOISE_DH_CURVE25519, 0);
#elif KIND == 7
    dh(NOISE_DH_CURVE448, 0);
#elif KIND == 8
    dh(NOISE_DH_NEWHOPE, choose(2) ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR);
#elif KIND == 9
    sign();
#else
    { NoiseRandState *s = 0; vf_assert(noise_randstate_new(&s) == 0 && noise_randstate_generate(s, out, 70) == 0, "random"); noise_randstate_free(s);
      vf_assert(noise_randstate_generate_simple(out, 70) == 0, "random"); }
#endif
    vf_assert(vf_heap_live() == 0, "all released"); vf_cover("end");
}
#endif
