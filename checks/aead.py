import os
from vlib.common import HARN, repo
PROT = ["src/protocol/cipherstate.c", "src/protocol/util.c", "src/protocol/names.c", "src/protocol/internal.c"]
STUB = os.path.join(HARN, "stub_prims.c"); OTHER = os.path.join(HARN, "stub_other.c")
BE = {
 "chacha-ref": (1, ["src/backend/ref/cipher-chachapoly.c", "src/crypto/chacha/chacha.c", STUB, OTHER], []),
 "chacha-ref-scalar": (1, ["src/backend/ref/cipher-chachapoly.c", "src/crypto/chacha/chacha.c", STUB, OTHER], ["-U__SSE2__"]),
 "chacha-sodium": (1, ["src/backend/sodium/cipher-chachapoly.c", STUB, OTHER], ["-DUSE_LIBSODIUM=1", "-DSTUB_SODIUM=1", "-Wno-implicit-function-declaration"]),
 "gcm-ref": (2, ["src/backend/ref/cipher-aesgcm.c", "src/crypto/aes/rijndael-alg-fst.c", "src/crypto/ghash/ghash.c", OTHER], []),
 "gcm-ref-32": (2, ["src/backend/ref/cipher-aesgcm.c", "src/crypto/aes/rijndael-alg-fst.c", "src/crypto/ghash/ghash.c", OTHER], ["-U__WORDSIZE", "-D__WORDSIZE=32"]),
 "gcm-sodium": (3, ["src/backend/sodium/cipher-aesgcm.c", "src/backend/ref/cipher-aesgcm.c", "src/crypto/aes/rijndael-alg-fst.c", "src/crypto/ghash/ghash.c", STUB, OTHER], ["-DUSE_LIBSODIUM=1", "-DSTUB_SODIUM=1", "-Wno-implicit-function-declaration"]),
 "gcm-openssl": (3, ["src/backend/openssl/cipher-aesgcm.c", STUB, OTHER], ["-DUSE_OPENSSL=1", "-DSTUB_OPENSSL=1"]),
}
KEYS = ["0x00,0x11,0x22,0x33,0x44,0x55,0x66,0x77,0x88,0x99,0xaa,0xbb,0xcc,0xdd,0xee,0xff,0x10,0x32,0x54,0x76,0x98,0xba,0xdc,0xfe,1,2,3,5,8,13,21,34", "0"]
def job(pid, nm, be, part, sizes, must, bounds, key=0, **kw):
    c, src, cf = BE[be]
    return dict(name="%s-%s" % (pid, nm), engine="se", harness="aead.c", sources=PROT + src, cflags=cf, anf=c == 2, fit=True, timeout=kw.pop("timeout", 600), must_cover=must, bounds=bounds,
                defines=["CIPHER=%d" % c, "PART=%d" % part, "SIZES=" + ",".join("{%d,%d}" % s for s in sizes), "KEY=" + KEYS[key]], **kw)
B = "every key, nonce, associated data, plaintext byte at (associated data, message) lengths "
def c04(tier):
    q = tier == "quick"; r = []
    for be in ("chacha-ref", "chacha-ref-scalar", "chacha-sodium"):
        for i, s in enumerate([[(0, 0), (1, 1), (16, 15), (15, 16)], [(17, 17), (32, 31), (0, 63), (0, 65)], [(31, 64), (5, 128)], [(12, 130), (33, 193)]] + ([] if q else [[(a, m) for a in (0, 3, 16, 40) for m in range(k, k + 12)] for k in range(0, 204, 12)])):
            r.append(job("c04", "%s-%d" % (be, i), be, 0, s, ["end"], B + str(s), cost=50))
    return r + poly1305(q)
def poly1305(q):
    r = []
    def j(nm, part, bounds, raw, *d, **kw): r.append(dict(name="c04-poly1305-" + nm, engine="se", harness="p1305.c", sources=[], cflags=["-I" + repo("src")], raw=raw, timeout=600, must_cover=["end"], bounds=bounds, defines=["PART=%d" % part] + list(d), **kw))
    j("init", 0, "every key", False)
    for f in (0, 1): j("block" + ("-last" if f else ""), 1, "every accumulator and multiplier in range, every block", True, "FINAL=%d" % f)
    for i, p in enumerate(["0,15,1", "16", "5,11,3", "1,30,1", "17,15", "7,9,16"] + ([] if q else ["32", "33", "15,17", "3,3,3,3,3,3", "31,1", "8,8,8,8", "16,1,15", "15,2,15", "2,46"])):
        j("pieces-%d" % i, 2, "every accumulator, multiplier and message byte, given in pieces of %s bytes" % p, True, "PIECES=" + p, cost=30)
    j("tag", 3, "every accumulator in range and every pad", False, cost=60)
    for n in (1, 2, 7, 15) if q else range(1, 16): j("padding-%d" % n, 4, "every state with %d bytes left over" % n, False, "LEFT=%d" % n)
    for n in (0, 5, 16, 21) if q else (0, 1, 5, 15, 16, 17, 21, 32, 37): j("auth-%d" % n, 5, "every key and message of %d bytes" % n, False, "LEFT=%d" % n)
    return r
def c05(tier):
    q = tier == "quick"; r = []
    for be in ("gcm-sodium", "gcm-openssl"):
        s = [(0, 0), (1, 1), (16, 15), (17, 33), (32, 64)] + ([] if q else [(a, m) for a in (0, 7, 48) for m in range(1, 60, 7)])
        r.append(job("c05", be, be, 0, s, ["end"], B + str(s)))
    r.append(job("c05", "openssl-failures", "gcm-openssl", 3, [(0, 0), (3, 5), (0, 20)], ["end", "failure", "no failure"], "any one of the first 12 OpenSSL calls failing"))
    for be in ("gcm-ref", "gcm-ref-32"):
        for i, s in enumerate([[(0, 0), (1, 1)], [(16, 15)], [(0, 17)], [(20, 16)], [(0, 33)]] + ([] if q else [[(33, 31)], [(0, 64)], [(15, 49)], [(48, 0)], [(47, 16)]])):
            r.append(job("c05", "%s-%d" % (be, i), be, 0, s, ["end"], "a fixed key, every nonce, associated data and plaintext byte at lengths " + str(s), key=i % 2 if not q else 0, cost=60))
        r.append(job("c05", be + "-keys", be, 2, [(0, 0)], ["end"], "every key and nonce; associated data of 32 zero bytes, empty plaintext", cost=60))
        r.append(job("c05", be + "-product", be, 5, [(0, 0)], ["end"], "every pair of 128-bit values", cost=100))
    r.append(job("c05", "aes", "gcm-ref", 4, [(0, 0)], ["end"], "every 256-bit key and every block"))
    return r
def c03(tier):
    q = tier == "quick"; r = []
    for be in ("chacha-ref", "chacha-ref-scalar", "chacha-sodium", "gcm-sodium", "gcm-openssl", "gcm-ref"):
        l = [[(0, 0), (3, 5), (16, 16)], [(0, 17), (1, 33)]] if not be.startswith("gcm-ref") else [[(0, 0), (3, 5)], [(0, 17)]]
        if not q: l += [[(13, 64)], [(17, 40)]]
        for i, s in enumerate(l):
            r.append(job("c03", "%s-%d" % (be, i), be, 1, s, ["end", "accepted", "refused"], "every received ciphertext and tag, nonce, associated data%s at lengths %s" % (" and a fixed key" if be == "gcm-ref" else " and key", s), cost=40))
    r.append(job("c03", "openssl-failures", "gcm-openssl", 3, [(3, 5), (0, 20)], ["end", "failure", "no failure"], "any one of the first 12 OpenSSL calls failing"))
    return r
A = ["allocation succeeds (M01)", "libsodium and OpenSSL compute the documented functions; stand-ins of the same contract take their place"]
TECH = "symbolic execution of the LLVM IR of the real cipher objects; equality with a reference written from %s decided over all bytes by normal form (GF(2) polynomials, linear sums, table lookups) and Z3"
CHECKS = {
 "C03": dict(level="model_checking", technique="symbolic execution of decryption in every backend on an arbitrary received ciphertext and tag; acceptance, plaintext and what is left in the buffer decided by Z3 and normal form", jobs=c03,
   level_note="Every received byte, tag, nonce and associated data byte at the listed lengths, in all five cipher backends.",
   explanation="The real decryption code runs on a ciphertext and a tag that are entirely symbolic; it must accept exactly when the tag is that of the standard, deliver the standard's plaintext, and on failure leave the buffer as received or cleared. The same object must then still accept a right message.",
   bounds="messages of 0..64 bytes, associated data of 0..17 bytes; AES-GCM of the reference backend under a fixed key; any one OpenSSL call failing", assumptions=A + ["Poly1305 is some function of its key and the bytes given to it"]),
 "C04": dict(level="model_checking", technique=TECH % "RFC 8439", jobs=c04, level_note="Every key, nonce and byte at the listed lengths.",
   explanation="The real ChaChaPoly object (reference backend in scalar and vector form, libsodium backend) seals symbolic messages; ciphertext, one-time key, authenticated bytes and their order must be those of RFC 8439, the next message uses the next nonce, and opening inverts sealing. Poly1305 is decided as integer identities modulo 2^130-5: one block from any accumulator in range, messages in pieces, padding, final tag.",
   bounds="messages of 0..193 bytes and associated data of 0..33 bytes at and around every block boundary", assumptions=A + ["in the whole-message jobs Poly1305 is some function of its key and the bytes given to it, and its code (64-bit form) is decided by jobs of its own; libsodium's functions are the standard ones"]),
 "C05": dict(level="model_checking", technique=TECH % "FIPS 197 and SP 800-38D", jobs=c05, level_note="AES and one GHASH product for every input; whole messages for every nonce and byte under fixed keys; libsodium and OpenSSL over an ideal GCM.",
   explanation="The real AES runs on symbolic keys and blocks and must equal FIPS 197; the real GHASH product must be that of SP 800-38D as a polynomial over GF(2); whole symbolic messages sealed by each backend must equal the reference; failures of OpenSSL calls must be reported.",
   bounds="messages of 0..64 bytes, associated data of 0..48; whole messages of the reference backend under two fixed keys (the key enters through AES and the hash key, checked for all keys)", assumptions=A),
}
