/* S01/S02: histories of symmetric-state operations against the Noise rules.
 * -DK steps -DNAME="..." -DCID -DHID [-DBYID]  -DSPLITONLY for S02 */
#define SH_MAX 700
#include "stub_hash.h"
#include "stub_aead.h"
#include "spec_kdf.h"
#include "spec_sym.h"
static uint8_t in[80], buf[120], want[120], del[80], pt[80];
static NoiseSymmetricState *st; static SpSym sp;
static unsigned choose(unsigned n) { uint8_t v = vf_u8("choice"); unsigned i; vf_assume(v < n); for (i = 0; i < n; ++i) if (v == i) return i; return 0; }
static void canary(size_t from) { size_t i; for (i = from; i < sizeof buf; ++i) if (buf[i] != 0x77) break; vf_assert(i == sizeof buf, "nothing is written past the message"); }
static void enc(size_t n)
{
    NoiseBuffer b; size_t w;
    vf_bytes(in, n, "pt"); memset(buf, 0x77, sizeof buf); memcpy(buf, in, n);
    w = sp_enc(&sp, in, n, want);
    noise_buffer_set_inout(b, buf, n, n + 16);
    vf_assert(noise_symmetricstate_encrypt_and_hash(st, &b) == NOISE_ERROR_NONE, "encrypt_and_hash succeeds");
    vf_assert(b.size == w && b.data == buf, "encrypt_and_hash length");
    vf_assert_eq(buf, want, w, "encrypt_and_hash output"); canary(w);
}
static void dec(size_t n, int tamper, size_t m)
{
    NoiseBuffer b; size_t w, i; SpSym save = sp; int err;
    if (!sp.c.has) { /* passes through */
        vf_bytes(in, n, "wire"); memset(buf, 0x77, sizeof buf); memcpy(buf, in, n);
        sp_mix_hash(&sp, in, n);
        noise_buffer_set_inout(b, buf, n, n);
        vf_assert(noise_symmetricstate_decrypt_and_hash(st, &b) == NOISE_ERROR_NONE && b.size == n, "decrypt_and_hash without a key");
        vf_assert_eq(buf, in, n, "decrypt_and_hash without a key changes nothing"); canary(n);
        return;
    }
    vf_bytes(pt, n, "pt");
    w = sp_enc(&sp, pt, n, want);
    memset(buf, 0x77, sizeof buf); memcpy(buf, want, w);
    if (tamper == 1) { int any = 0; for (i = 0; i < w; ++i) { del[i] = 0; } vf_bytes(del, w, "delta"); for (i = 0; i < w; ++i) { any |= del[i]; buf[i] ^= del[i]; } vf_assume(any != 0); }
    if (tamper == 2) w -= m;
    noise_buffer_set_inout(b, buf, w, w);
    err = noise_symmetricstate_decrypt_and_hash(st, &b);
    if (tamper) {
        vf_assert(err == (w < 16 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE), "altered or short ciphertext is refused");
        sp = save;      /* nothing changes */
    } else {
        vf_assert(err == NOISE_ERROR_NONE && b.size == n, "decrypt_and_hash of the genuine ciphertext");
        vf_assert_eq(buf, pt, n, "decrypt_and_hash output");
    }
    canary(n + 16);
}
static void step(void)
{
    static const size_t szs[] = {0, 32, 5};
    size_t n; NoiseBuffer b;
    switch (choose(7)) {
    case 0: n = szs[choose(2)]; vf_bytes(in, n, "ikm"); vf_assert(noise_symmetricstate_mix_key(st, in, n) == NOISE_ERROR_NONE, "mix_key"); sp_mix_key(&sp, in, n); break;
    case 1: n = szs[choose(3)]; vf_bytes(in, n, "data"); vf_assert(noise_symmetricstate_mix_hash(st, in, n) == NOISE_ERROR_NONE, "mix_hash"); sp_mix_hash(&sp, in, n); break;
    case 2: enc(szs[choose(3)]); break;
    case 3: dec(szs[choose(3)], 0, 0); break;
    case 4: if (choose(2)) dec(szs[choose(3)], 1, 0); else { if (choose(2)) dec(5, 2, 5); else dec(0, 2, 1); } break;
    case 5: /* refused calls change nothing */
        memset(buf, 0x77, sizeof buf);
        noise_buffer_set_inout(b, buf, 10, 25);
        if (sp.c.has) vf_assert(noise_symmetricstate_encrypt_and_hash(st, &b) == NOISE_ERROR_INVALID_LENGTH && b.size == 10, "no room for the MAC");
        noise_buffer_set_inout(b, buf, 65536 - (sp.c.has ? 16 : 0), 70000);
        vf_assert(noise_symmetricstate_encrypt_and_hash(st, &b) == NOISE_ERROR_INVALID_LENGTH, "over-long plaintext");
        noise_buffer_set_inout(b, buf, 65536, 70000);
        vf_assert(noise_symmetricstate_decrypt_and_hash(st, &b) == NOISE_ERROR_INVALID_LENGTH, "over-long ciphertext");
        noise_buffer_set_inout(b, 0, 1, 30);
        vf_assert(noise_symmetricstate_encrypt_and_hash(st, &b) == NOISE_ERROR_INVALID_PARAM && noise_symmetricstate_decrypt_and_hash(st, &b) == NOISE_ERROR_INVALID_PARAM, "missing data");
        vf_assert(noise_symmetricstate_mix_key(st, 0, 1) == NOISE_ERROR_INVALID_PARAM && noise_symmetricstate_mix_hash(st, 0, 1) == NOISE_ERROR_INVALID_PARAM && noise_symmetricstate_encrypt_and_hash(st, 0) == NOISE_ERROR_INVALID_PARAM && noise_symmetricstate_decrypt_and_hash(st, 0) == NOISE_ERROR_INVALID_PARAM, "missing arguments");
        canary(0); break;
    case 6: vf_assert(noise_symmetricstate_get_mac_length(st) == (sp.c.has ? 16u : 0u), "MAC length"); break;
    }
}
static void use(NoiseCipherState *c, const uint8_t *k)
{
    uint8_t m[24], w[40]; NoiseBuffer b; int r;
    vf_assert(noise_cipherstate_has_key(c) == 1 && noise_cipherstate_get_cipher_id(c) == CID, "split cipher has a key");
    for (r = 0; r < 2; ++r) {
        memset(m, 0, sizeof m); memset(w, 0, sizeof w); m[0] = 9; w[0] = 9;
        sa_crypt(CID, k, r, w, 8); sa_tag(CID, k, r, (const uint8_t *)"xy", 2, w, 8, w + 8);
        noise_buffer_set_inout(b, m, 8, 24);
        vf_assert(noise_cipherstate_encrypt_with_ad(c, (const uint8_t *)"xy", 2, &b) == NOISE_ERROR_NONE && b.size == 24, "split cipher encrypts");
        vf_assert_eq(m, w, 24, "split cipher key and nonce");
    }
}
static void dead(void)
{
    NoiseCipherState *a, *b; NoiseBuffer m; static NoiseCipherState dummy;
    memset(buf, 0x77, sizeof buf); noise_buffer_set_inout(m, buf, 20, 60);
    vf_assert(noise_symmetricstate_mix_key(st, buf, 4) == NOISE_ERROR_INVALID_STATE && noise_symmetricstate_mix_hash(st, buf, 4) == NOISE_ERROR_INVALID_STATE, "no mixing after split");
    vf_assert(noise_symmetricstate_encrypt_and_hash(st, &m) == NOISE_ERROR_INVALID_STATE && noise_symmetricstate_decrypt_and_hash(st, &m) == NOISE_ERROR_INVALID_STATE && m.size == 20, "no messages after split");
    a = b = &dummy;
    vf_assert(noise_symmetricstate_split(st, &a, &b) == NOISE_ERROR_INVALID_STATE && !a && !b, "no second split");
    a = &dummy; vf_assert(noise_symmetricstate_split(st, &a, 0) == NOISE_ERROR_INVALID_STATE && !a, "no second split");
    b = &dummy; vf_assert(noise_symmetricstate_split(st, 0, &b) == NOISE_ERROR_INVALID_STATE && !b, "no second split");
    vf_assert(noise_symmetricstate_get_mac_length(st) == 0, "no MAC length after split");
    canary(0);
}
void harness(void)
{
    NoiseCipherState *c1 = 0, *c2 = 0; uint8_t k1[32], k2[32]; unsigned i, how; NoiseProtocolId id, id2;
#ifdef BYID
    vf_assert(noise_protocol_name_to_id(&id, NAME, strlen(NAME)) == NOISE_ERROR_NONE && noise_symmetricstate_new_by_id(&st, &id) == NOISE_ERROR_NONE, "create by id");
#else
    vf_assert(noise_symmetricstate_new_by_name(&st, NAME) == NOISE_ERROR_NONE, "create by name");
    vf_assert(noise_protocol_name_to_id(&id, NAME, strlen(NAME)) == NOISE_ERROR_NONE, "parse");
#endif
    vf_assert(noise_symmetricstate_get_protocol_id(st, &id2) == NOISE_ERROR_NONE && memcmp(&id, &id2, sizeof id) == 0, "protocol id kept");
    sp_init(&sp, CID, HID, NAME);
    for (i = 0; i < K; ++i) step();
    /* make everything observable */
    vf_bytes(in, 3, "probe");
    if (choose(2)) { noise_symmetricstate_mix_key(st, in, 3); sp_mix_key(&sp, in, 3); enc(3); vf_cover("probed"); }
    how = choose(3);
    sp_split(&sp, k1, k2);
    vf_assert(noise_symmetricstate_split(st, 0, 0) == NOISE_ERROR_INVALID_PARAM, "split into nothing is refused");
    vf_assert(noise_symmetricstate_split(st, how != 1 ? &c1 : 0, how != 2 ? &c2 : 0) == NOISE_ERROR_NONE, "split succeeds");
    vf_assert((how == 1) == (c1 == 0) && (how == 2) == (c2 == 0), "split returns what was asked for");
    if (c1) use(c1, k1);
    if (c2) use(c2, k2);
    dead();
    vf_assert(noise_symmetricstate_free(st) == NOISE_ERROR_NONE, "free");
    if (c1) noise_cipherstate_free(c1);
    if (c2) noise_cipherstate_free(c2);
#ifdef VF_SE
    vf_assert(vf_heap_live() == 0, "nothing leaks");
#endif
    vf_cover("end");
}
