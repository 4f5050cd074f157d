PROT = ["src/protocol/" + f for f in ("symmetricstate.c", "cipherstate.c", "hashstate.c", "util.c", "names.c", "patterns.c")]
NAMES = [("Noise_NN_25519_AESGCM_SHA256", "AESGCM", "SHA256"), ("Noise_XX_25519_ChaChaPoly_SHA256", "CHACHAPOLY", "SHA256"), ("Noise_XX_25519_ChaChaPoly_BLAKE2s", "CHACHAPOLY", "BLAKE2s"),
         ("NoisePSK_XXfallback_448_ChaChaPoly_SHA512", "CHACHAPOLY", "SHA512"), ("Noise_IK_25519_AESGCM_BLAKE2b", "AESGCM", "BLAKE2b"), ("Noise_XXfallback+hfs_25519+NewHope_ChaChaPoly_SHA512", "CHACHAPOLY", "SHA512"), ("NoisePSK_KK_448_ChaChaPoly_SHA256", "CHACHAPOLY", "SHA256")]
def job(i, k, byid):
    n, c, h = NAMES[i]
    return dict(name="s01-%d-k%d%s" % (i, k, "-id" if byid else ""), engine="se", harness="s01.c", sources=PROT, timeout=800, cost=k,
        defines=["K=%d" % k, 'NAME="%s"' % n, "CID=NOISE_CIPHER_" + c, "HID=NOISE_HASH_" + h] + (["BYID=1"] if byid else []), must_cover=["end", "probed"],
        bounds="every history of %d operations over all data bytes (0..32 byte inputs), protocol %s" % (k, n))
def s01(tier):
    if tier == "quick": return [job(i, 2, i % 2) for i in range(len(NAMES))]
    return [job(i, 4 if i in (1, 3) else 3, i % 2) for i in range(len(NAMES))]
def s02(tier): return [job(i, 1 if tier == "quick" else 2, (i + 1) % 2) for i in range(len(NAMES))]
L = "Every sequence of the stated number of operations with all data symbolic, over ideal hash and AEAD."
X = "The real symmetricstate.c, cipherstate.c and hashstate.c run symbolically over uninterpreted hash and AEAD functions side by side with a transcription of the Noise specification; all outputs and, through a probe and a split, the whole state must agree."
CHECKS = {
 "S01": dict(level="model_checking", technique="symbolic execution of symmetricstate.c over ideal primitives, compared with the Noise specification for every operation history", jobs=s01, level_note=L, explanation=X,
    bounds="histories of 2 operations (thorough 3 to 4) plus probe and split; data of 0, 5 and 32 bytes", assumptions=["ideal hash and AEAD: no collisions, no forgeries by an environment that does not know the key", "allocation succeeds (M01)"]),
 "S02": dict(level="model_checking", technique="symbolic execution of symmetricstate split and every later call over ideal primitives", jobs=s02, level_note=L, explanation=X,
    bounds="every way of splitting after histories of 1 (thorough 2) operations", assumptions=["ideal hash and AEAD", "allocation succeeds (M01)"]),
}
