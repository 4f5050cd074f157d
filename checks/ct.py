import os
from vlib.common import HARN
from .hs import PROT, sub, split
REF = ["src/backend/ref/" + f for f in "cipher-chachapoly.c cipher-aesgcm.c hash-blake2s.c hash-blake2b.c hash-sha256.c hash-sha512.c dh-curve25519.c dh-curve448.c dh-newhope.c sign-ed25519.c".split()]
CF = ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM", "-DED25519_NO_INLINE_ASM"]
CIPH = ["src/protocol/cipherstate.c", "src/protocol/util.c", "src/protocol/names.c", "src/protocol/internal.c", "src/backend/ref/cipher-chachapoly.c", "src/crypto/chacha/chacha.c", "src/crypto/donna/poly1305-donna.c", "src/backend/ref/cipher-aesgcm.c"]
PUB = os.path.join(HARN, "ct_public.c")
def t01(tier):
    q = tier == "quick"; r = []
    def j(n, defs, bounds, must=(), cost=30, **kw):
        kw.setdefault("passes", "sroa,early-cse,dce")   # keep every branch of the source a branch
        r.append(dict(name="t01-" + n, engine="se", harness="t01.c", defines=defs, cflags=kw.pop("cflags", []) + CF, opts=dict(ct=1), engine_only=True, timeout=700 if q else 3000, must_cover=["end"] + list(must), bounds=bounds, cost=cost, **kw))
    j("compare", ["PART=0"], "every content of 0..69 bytes", sources=["src/protocol/util.c"])
    for n, cf in (("vector", []), ("scalar", ["-U__SSE2__"])):
        j("chachapoly-" + n, ["PART=1", "CIPHER=NOISE_CIPHER_CHACHAPOLY", "LENS=0,5,16,70" + ("" if q else ",64,131,200")], "every key, associated data, plaintext and ciphertext byte; messages of 0..70 bytes", ["accepted", "rejected"], 60, sources=CIPH, override_sources=[PUB], raw=True, cflags=cf)
    for h in ("BLAKE2s", "BLAKE2b", "SHA256", "SHA512"):
        j("hash-" + h, ["PART=2", "HASH=NOISE_HASH_" + h, "LENS=0,1,64,130"], "every byte; messages of 0..130 bytes, HKDF, PBKDF2", (), 60, sources=PROT + REF, raw=True)
    for d in ("CURVE25519", "CURVE448"):
        j("keys-" + d, ["PART=3", "DH=NOISE_DH_" + d], "every private key; generate, set, check, read, copy, calculate, clear", (), 40, sources=PROT + REF, override_sources=[os.path.join(HARN, "ideal_curves.c"), PUB])
    j("curve25519", ["PART=4"], "every scalar and point", (), 200, sources=["src/crypto/donna/curve25519-donna-c64.c"], raw=True)
    j("ed25519", ["PART=5"], "every seed and 12-byte message", (), 300, sources=["src/crypto/ed25519/ed25519.c", "src/crypto/sha2/sha512.c", "src/protocol/util.c"], raw=True)
    j("ghash", ["PART=6"], "every key and block", (), 40, sources=["src/crypto/ghash/ghash.c"])
    return r
CHECKS = {
 "T01": dict(level="model_checking", technique="symbolic execution with secret inputs; any branch, address or length whose term depends on one is a violation", jobs=t01,
   level_note="Every secret value at the listed lengths; Curve448's field multiplication (inline assembly) and table-driven AES are outside.",
   explanation="The real code runs on symbolic secrets without simplifying its control flow; a branch condition, switch value, load or store address or copy length that mentions a secret variable is reported. Accept or reject of a comparison is public and is replaced by a free choice.",
   bounds="messages of 0..130 bytes; complete Curve25519 ladder and Ed25519 key derivation and signing", assumptions=["the compiler keeps straight-line code straight; table-driven AES is documented as such and excluded"]),
}
