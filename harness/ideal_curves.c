/* Ideal stand-ins for the curve functions (their own correctness is D02, D03, G02), used in both back ends. */
#include "vf.h"
typedef unsigned char u8;
static int is_base(const u8 *p, size_t n, u8 b) { u8 t[64]; memset(t, 0, sizeof t); t[0] = b; return vf_is_const(p, n) && memcmp(p, t, n) == 0; }
int curve25519_donna(u8 *o, const u8 *k, const u8 *p) { if (is_base(p, 32, 9)) vf_pub(o, k, 32, 1); else vf_dh(o, k, p, 32, 1); return 0; }
void curved25519_scalarmult_basepoint(u8 *o, const u8 *k) { vf_pub(o, k, 32, 1); }
int curve448_eval(u8 *o, const u8 *k, const u8 *p) { u8 v, t[56]; if (is_base(p, 56, 5)) { vf_pub(o, k, 56, 2); return 1; } memcpy(t, p, 56); vf_dh(o, k, t, 56, 2); vf_uf("dhvalid", &v, 1, t, 56); return v & 1; }
void ed25519_publickey(const u8 *k, u8 *o) { vf_pub(o, k, 32, 4); }
void ed25519_sign(const u8 *m, size_t n, const u8 *k, const u8 *p, u8 *s) { u8 t[64 + 64]; vf_assert(n <= 64, "message bound"); memcpy(t, k, 32); memcpy(t + 32, p, 32); memcpy(t + 64, m, n); vf_uf("sign", s, 64, t, 64 + n); }
int ed25519_sign_open(const u8 *m, size_t n, const u8 *p, const u8 *s) { u8 t[96 + 64], r; vf_assert(n <= 64, "message bound"); memcpy(t, p, 32); memcpy(t + 32, s, 64); memcpy(t + 96, m, n); vf_uf("verify", &r, 1, t, 96 + n); return -(int)(r & 1); }
