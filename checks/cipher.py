SRC = ["src/protocol/cipherstate.c", "src/protocol/util.c", "src/protocol/names.c", "src/crypto/sha2/sha256.c"]
FN = ["noise_cipherstate_new_by_id", "noise_cipherstate_init_key", "noise_cipherstate_set_nonce", "noise_cipherstate_encrypt_with_ad",
      "noise_cipherstate_decrypt_with_ad", "noise_cipherstate_encrypt", "noise_cipherstate_decrypt", "noise_cipherstate_free"]
def c01(tier):
    ks = [3, 5] if tier == "quick" else [3, 5, 6, 7]
    return [dict(name="c01-history-k%d" % k, engine="cbmc", harness="c01.c", sources=SRC, defines=["K=%d" % k], unwind=110, timeout=700 if tier == "quick" else 7200,
                 unwindset=["harness.0:%d" % (k + 1)], cost=k, functions=FN, bounds="every history of %d calls from a new object; 64-bit nonces unrestricted; buffers of 0..31 bytes in a 24-byte capacity" % k) for k in ks]
def c02(tier):
    return [dict(name="c02-sizes", engine="cbmc", harness="c02.c", sources=SRC, unwind=110, timeout=600, functions=FN,
                 bounds="one call on every (size, capacity, associated data length) in 2^64, key/no key, every missing argument")]
CHECKS = {
 "C01": dict(level="model_checking", technique="CBMC bounded model checking of cipherstate.c over symbolic call histories", jobs=c01,
   level_note="Every history up to the bound with unrestricted 64-bit nonces; the AEAD backend is replaced by a recording stub answering arbitrarily.",
   explanation="CBMC executes the real cipherstate.c symbolically over every sequence of K calls with solver-chosen arguments and checks every nonce handed to the backend.",
   bounds="histories of up to 5 (thorough: 7) calls", assumptions=["the cipher backend uses the object's nonce field as its nonce (checked by C04 and C05)", "allocation succeeds (M01 covers failure)"]),
 "C02": dict(level="model_checking", technique="CBMC bounded model checking of cipherstate.c with symbolic sizes", jobs=c02,
   level_note="All sizes in the full 64-bit range for one call from a fresh object with or without a key; backend stubbed by a recorder.",
   explanation="CBMC executes the real cipherstate.c for one call with all sizes, capacities and pointers symbolic and compares with the documented outcome.",
   bounds="one call; sizes unrestricted", assumptions=["the cipher backend touches exactly data[0..len+mac) (checked by C03-C05)"]),
}
