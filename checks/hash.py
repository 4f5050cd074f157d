import os
from vlib.common import SPEC, HARN
REFB = ["src/backend/ref/hash-blake2s.c", "src/backend/ref/hash-blake2b.c", "src/backend/ref/hash-sha256.c", "src/backend/ref/hash-sha512.c",
        "src/crypto/sha2/sha256.c", "src/crypto/sha2/sha512.c", "src/crypto/blake2/blake2s.c", "src/crypto/blake2/blake2b.c"]
SODB = ["src/backend/ref/hash-blake2s.c", "src/crypto/blake2/blake2s.c", "src/backend/sodium/hash-blake2b.c", "src/backend/sodium/hash-sha256.c", "src/backend/sodium/hash-sha512.c", "src/crypto/sha2/sha256.c"]
PROT = ["src/protocol/hashstate.c", "src/protocol/util.c", "src/protocol/names.c"]
ALGS = {"sha256": ("NOISE_HASH_SHA256", 32, 64), "sha512": ("NOISE_HASH_SHA512", 64, 128), "blake2s": ("NOISE_HASH_BLAKE2s", 32, 64), "blake2b": ("NOISE_HASH_BLAKE2b", 64, 128)}
def h01(tier):
    r = []
    for be, src, cf in (("ref", REFB, []), ("sodium", SODB, ["-DUSE_LIBSODIUM=1"])):
        for a, (idn, hl, bl) in ALGS.items():
            if be == "sodium" and a == "blake2s": continue
            pad = 9 if bl == 64 else 17
            sets = [[0, 1, 3, bl - pad, bl - pad + 1], [bl - 1, bl, bl + 1], [2 * bl - pad, 2 * bl - pad + 1, 2 * bl], [2 * bl + 1, 3 * bl]]
            cuts = [[0, 1, bl - 1], [bl - 1, bl], [1, bl, bl + 7], [bl - 1, bl + 1, 2 * bl]]
            if tier != "quick":
                sets += [list(range(i, i + 8)) for i in range(0, 3 * bl + 2, 8)]; cuts += [[0, 1, bl // 2, bl - 1, bl, bl + 1]] * (len(sets) - 4)
            if be == "sodium": sets = sets[:2]
            for i, (s, c) in enumerate(zip(sets, cuts)):
                r.append(dict(name="h01-%s-%s-%d" % (be, a, i), engine="se", harness="h01.c", sources=PROT + src + [os.path.join(SPEC, "spec_hash.c")] + ([os.path.join(HARN, "stub_sodium_hash.c")] if be == "sodium" else []),
                    cflags=cf, defines=["ALG=" + idn, "SPEC=spec_" + a, "HLEN=%d" % hl, "BLEN=%d" % bl, "LENS=" + ",".join(map(str, s)), "CUTS=" + ",".join(map(str, c))],
                    timeout=500 if tier == "quick" else 6000, cost=max(s) * (2 if bl == 128 else 1),
                    bounds="every byte of messages of lengths %s, cut at %s, with earlier uses of the object" % (s, c)))
    for a, (idn, hl, bl) in ALGS.items():
        r.append(dict(name="h01-count-" + a, engine="se", harness="h01b.c", sources=PROT + REFB + [os.path.join(SPEC, "spec_hash.c")],
             defines=["ALG=" + idn, "HLEN=%d" % hl, "BLEN=%d" % bl, "SPECEX=spec_%s_ex" % a], timeout=500, cost=100,
             bounds="any 64-bit count of bytes already hashed, any chaining value, 0..20 further bytes: the compression input and length field"))
    return r
def h02(tier):
    return [dict(name="h02-" + a, engine="se", harness="h02.c", sources=PROT, defines=["ALG=" + ALGS[a][0]], timeout=400,
                 bounds="every byte of keys, data, passphrases and salts of 0..300 bytes at and around the block length; 1..4 iterations; outputs of 0 to 3 blocks and 5 bytes") for a in ALGS]
CHECKS = {
 "H02": dict(level="model_checking", technique="symbolic execution of hashstate.c over an uninterpreted hash; equality with RFC 2104 / Noise HKDF / RFC 8018 for all bytes",
   jobs=h02, level_note="All byte values at the listed lengths, over an uninterpreted hash of each of the four shapes.",
   explanation="The real HMAC, HKDF and PBKDF2 code runs symbolically on an ideal (uninterpreted) hash; its outputs must be the same terms as those of definitions written from the standards.",
   bounds="lengths 0..300, 1..4 iterations, up to 4 output blocks", assumptions=["the hash objects compute a function of the bytes given since reset (H01)"]),
 "H01": dict(level="model_checking", technique="symbolic execution of the LLVM IR of the hash objects; equality with a FIPS 180-4 / RFC 7693 reference decided over all message bytes by normal form and Z3",
   jobs=h01, level_note="All contents of messages at the listed lengths and cuts; the length counter unrestricted.",
   explanation="The real hash code (reference backend; libsodium wrappers against a stand-in of the libsodium API) is executed symbolically on messages whose bytes are all symbolic, and the digest terms are compared with those of an independent reference.",
   bounds="message lengths around every block and padding boundary up to three blocks; three chunks per message after an earlier partial use",
   assumptions=["libsodium's own hash functions are correct (only noise-c's calls into them are checked)"]),
}
