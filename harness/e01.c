/* E01: error strings and fingerprints.  -DPART=0 strings, 1 raw fingerprints */
#include "protocol/internal.h"
#include "vf.h"
#include "vf_printf.h"
#if PART == 0
static const char *const texts[] = {"No error", "Out of memory", "Unknown identifier", "Unknown name", "MAC failure", "Not applicable", "System error", "Remote public key required", "Local keypair required",
    "Pre shared key required", "Invalid length", "Invalid parameter", "Invalid state", "Invalid nonce", "Invalid private key", "Invalid public key", "Invalid format", "Invalid signature"};
static const int codes[] = {NOISE_ERROR_NONE, NOISE_ERROR_NO_MEMORY, NOISE_ERROR_UNKNOWN_ID, NOISE_ERROR_UNKNOWN_NAME, NOISE_ERROR_MAC_FAILURE, NOISE_ERROR_NOT_APPLICABLE, NOISE_ERROR_SYSTEM, NOISE_ERROR_REMOTE_KEY_REQUIRED,
    NOISE_ERROR_LOCAL_KEY_REQUIRED, NOISE_ERROR_PSK_REQUIRED, NOISE_ERROR_INVALID_LENGTH, NOISE_ERROR_INVALID_PARAM, NOISE_ERROR_INVALID_STATE, NOISE_ERROR_INVALID_NONCE, NOISE_ERROR_INVALID_PRIVATE_KEY,
    NOISE_ERROR_INVALID_PUBLIC_KEY, NOISE_ERROR_INVALID_FORMAT, NOISE_ERROR_INVALID_SIGNATURE};
void harness(void)
{
    int err = vf_int("err"), i, r, ok = 1; size_t size = vf_u8("size"), n, k; char *buf, want[40]; const char *t = 0; vf_assume(size <= 36);
    buf = vf_obj(size, 36); vf_bytes(buf, size, "old");
    for (i = 0; i < 18; ++i) if (codes[i] == err) t = texts[i];
    r = noise_strerror(err, buf, size);
    vf_assert(noise_strerror(err, 0, size) == -1, "null buffer refused");
    if (!size) { vf_assert(r == -1, "empty buffer refused"); vf_cover("empty"); return; }
    vf_assert(r == 0, "string returned");
    for (n = 0; n < 36 && n < size && buf[n]; ++n) ;
    vf_assert(n < size && buf[n] == 0, "terminated within the buffer");
    if (t) {
        for (k = 0; t[k]; ++k) want[k] = t[k]; 
        vf_assert(n == (k < size ? k : size - 1), "as much of the text as fits");
        for (i = 0; i < 36; ++i) if ((size_t)i < n && buf[i] != want[i]) ok = 0;
        vf_assert(ok, "text of the code"); vf_cover("known");
    } else {
        /* an unknown code: its own text, naming the code in hexadecimal */
        static const char pre[] = "Unknown error 0x"; int d = 1; unsigned v = (unsigned)err; while (v >> 4) { ++d; v >>= 4; }
        for (k = 0; k < 16; ++k) want[k] = pre[k];
        for (i = 0; i < 8; ++i) if (i < d) { unsigned g = ((unsigned)err >> (4 * (d - 1 - i))) & 15; want[16 + i] = (char)(g < 10 ? '0' + g : 'a' + g - 10); }
        k = 16 + d; vf_assert(n == (k < size ? k : size - 1), "as much of the text as fits");
        for (i = 0; i < 36; ++i) if ((size_t)i < n && buf[i] != want[i]) ok = 0;
        vf_assert(ok, "text of an unknown code"); vf_cover("unknown");
    }
}
#else
/* SHA-256 replaced by a recorder returning an arbitrary digest */
#include "crypto/sha2/sha256.h"
static const uint8_t *seen; static size_t seen_len; static int resets, fins; static uint8_t digest[32];
void sha256_reset(sha256_context_t *c) { (void)c; ++resets; seen = 0; seen_len = 0; }
void sha256_update(sha256_context_t *c, const void *d, size_t n) { (void)c; if (n) { vf_assert(seen == 0 || (const uint8_t *)d == seen + seen_len, "key hashed in one piece"); if (!seen) seen = d; seen_len += n; } }
void sha256_finish(sha256_context_t *c, uint8_t *h) { int i; (void)c; ++fins; for (i = 0; i < 32; ++i) h[i] = digest[i]; }
void sha256_hash(uint8_t *h, const void *d, size_t n) { sha256_context_t c; sha256_reset(&c); sha256_update(&c, d, n); sha256_finish(&c, h); }
static size_t upto(size_t max, const char *nm) { size_t n = vf_u8(nm), k; vf_assume(n <= max); for (k = 0; k < max; ++k) if (n == k) return k; return max; }
void harness(void)
{
    int type = vf_int("type"), err, full, i; size_t len = upto(100, "len"), n = vf_size("keylen"), need; char *buf, want[100]; uint8_t key[4]; const uint8_t *pk = key;
    static const char hex[] = "0123456789abcdef";
    if (vf_u8("nullkey") & 1) pk = 0;
    buf = vf_obj(len, 100); vf_bytes(buf, len, "old"); vf_bytes(digest, 32, "digest"); memcpy(want, buf, len);
    vf_assert(noise_format_fingerprint(type, 0, len, pk, n) == NOISE_ERROR_INVALID_PARAM, "null buffer refused"); vf_assert(resets == 0, "nothing hashed");
    err = noise_format_fingerprint(type, buf, len, pk, n);
    full = type == NOISE_FINGERPRINT_FULL; need = full ? 96 : 48;
    if (pk == 0 || (type != NOISE_FINGERPRINT_BASIC && !full) || len < need) {
        if (pk == 0 || (type != NOISE_FINGERPRINT_BASIC && !full)) vf_assert(err == NOISE_ERROR_INVALID_PARAM || (err == NOISE_ERROR_INVALID_LENGTH && len < 96), "bad parameter refused");
        else vf_assert(err == NOISE_ERROR_INVALID_LENGTH, "short buffer refused");
        if (len) { vf_assert(buf[0] == 0, "empty string on failure"); want[0] = 0; if (pk && len < need) vf_assert_eq(buf, want, len, "nothing else written"); }
        vf_cover("refused"); return;
    }
    vf_assert(err == NOISE_ERROR_NONE && fins == 1 && resets == 1 && seen_len == n && (!n || seen == key), "the key is hashed");
    for (i = 0; (size_t)i * 3 < need; ++i) {
        want[3 * i] = hex[digest[i] >> 4]; want[3 * i + 1] = hex[digest[i] & 15]; want[3 * i + 2] = (size_t)(3 * i + 3) == need ? 0 : ':';
    }
    vf_assert_eq(buf, want, len, "the fingerprint text and nothing beyond it");
    if (full) vf_cover("full"); else vf_cover("basic");
}
#endif
