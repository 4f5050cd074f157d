SR = ["src/protocol/randstate.c", "src/protocol/util.c"]
SOD = ["-DUSE_LIBSODIUM=1", "-Wno-implicit-function-declaration"]
def r01(tier):
    q = tier == "quick"; r = []
    for be, cf in (("ref", []), ("sodium", SOD)):
        def j(n, defs, must, bounds, **kw): r.append(dict(name="r01-%s-%s" % (n, be), engine="se", harness="r01.c", sources=SR, defines=defs, cflags=cf, must_cover=must, bounds=bounds, timeout=600 if q else 3000, cost=kw.pop("cost", 30), **kw))
        for i, l in enumerate(["0,1,65", "64,63", "1024,1025", "2200"] + ([] if q else ["17,128,129,1088", "1089,5", "3300"])):
            j("sequence-%d" % i, ["PART=0", "LENS=" + l, "STEPS=%d" % (3 if i < 2 else 2 if q else 3)], ["simple", "end"], "every sequence of %d calls among: generate %s bytes, reseed, generate_simple; every entropy" % (3 if i < 2 or not q else 2, l))
        j("pad", ["PART=1", "MAXP=%d" % (10 if q else 40)], ["zero", "random", "nothing", "no generator", "end"], "every original and padded length 0..%d and every mode" % (10 if q else 40))
        for nm, l, k, big in (("one", "3200200", 3, 3200200), ("two", "1599936,64,1", 2, 1599936), ("across", "1599936,65", 2, 1599936), ("three", "800000,800000,64", 2, 800000)):
            j("interval-" + nm, ["PART=2", "BIG=1", "BIGLEN=%d" % big, "LENS=" + l, "RESEEDS=%d" % k, "EP=4096"], ["end"], "requests of %s bytes in a row" % l, cost=90)
    r.append(dict(name="r01-system", engine="se", harness="r01.c", sources=["src/protocol/util.c"], defines=["PART=3"], must_cover=["open fails", "read fails", "short read", "gives up", "filled", "end"], bounds="requests of 1..40 bytes; every outcome of open and of up to four reads", timeout=600, cost=40))
    return r
CHECKS = {
 "R01": dict(level="model_checking", technique="symbolic execution of randstate.c and rand_os.c over an ideal keystream and symbolic entropy; where every output byte and key comes from is decided on the terms", jobs=r01,
   level_note="Every call sequence at the listed request sizes, every entropy value, every outcome of the system calls; both the reference and the libsodium form.",
   explanation="Keystream blocks are ideal functions of key epoch and block number: every output byte must be exactly one such byte, no block may be used twice, every key must come from keystream never handed out (mixed with fresh entropy on a reseed), no key may serve two requests, and entropy must be fetched at the documented intervals. The system source returns only with bytes of the system and otherwise ends the program with a failure status.",
   bounds="sequences of 2 or 3 calls at sizes around every block boundary; four request patterns crossing 1600000 bytes; padding lengths 0..10 (thorough 0..40)", assumptions=["ChaCha20 as in C04; libsodium's stream function is the standard one"]),
}
