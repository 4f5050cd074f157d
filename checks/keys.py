P = lambda *f: ["src/protocol/" + x for x in f]
import os
STUB = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/ideal_curves.c")]
CF = ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM"]
def d01(tier):
    r = []
    for alg, be, nm in ((1, "ref/dh-curve25519.c", "25519"), (2, "ref/dh-curve448.c", "448"), (1, "sodium/dh-curve25519.c", "25519-sodium")):
        other = "ref/dh-curve448.c" if alg == 1 else "ref/dh-curve25519.c"
        for k, first in [(1, -1)] + ([] if tier == "quick" and be[0] == "s" else [(2, f) for f in range(8)] if tier == "quick" else [(3, f) for f in range(8)]):
            r.append(dict(name="d01-%s-k%d%s" % (nm, k, "-%d" % first if first >= 0 else ""), engine="se", harness="d01.c", sources=P("dhstate.c", "util.c", "names.c") + ["src/backend/" + be, "src/backend/" + other], override_sources=STUB,
                defines=["ALG=%d" % alg, "K=%d" % k, "SODIUM=%d" % (be[0] == "s"), "FIRST=%d" % first], cflags=CF, cost=k * 10 + alg, timeout=800 if tier == "quick" else 7000,
                must_cover=["end", "generate", "pair", "mismatch", "private", "public", "null", "clear", "mixed", "copy", "no private", "secret"] + (["null secret"] + ["invalid point"] * (alg == 2) if k > 1 and first in (0, 4) else []) if first in (-1, 0, 4) else ["end"],
                bounds="every history of %d calls%s on two %s objects with symbolic keys and lengths" % (k, " starting with operation %d" % first if first >= 0 else "", nm)))
    return r
def g01(tier):
    r = []
    for be in ("ref", "sodium"):
        for k, first in [(1, -1)] + ([] if tier == "quick" and be == "sodium" else [(2, f) for f in range(7)] if tier == "quick" else [(3, f) for f in range(7)]):
            r.append(dict(name="g01-%s-k%d%s" % (be, k, "-%d" % first if first >= 0 else ""), engine="se", harness="g01.c", sources=P("signstate.c", "util.c", "names.c") + ["src/backend/%s/sign-ed25519.c" % be], override_sources=STUB,
                defines=["K=%d" % k, "SODIUM=%d" % (be == "sodium"), "FIRST=%d" % first], cflags=CF, cost=k, timeout=800 if tier == "quick" else 7000,
                must_cover=["end", "no private", "valid", "invalid"] + (["generate", "pair", "mismatch", "private", "public", "clear", "copy", "signed", "no public"] if first == -1 else []),
                bounds="every history of %d calls%s on two Ed25519 objects with symbolic keys, lengths, messages and signatures" % (k, " starting with operation %d" % first if first >= 0 else "")))
    return r
CHECKS = {
 "G01": dict(level="model_checking", technique="symbolic execution of signstate.c and the Ed25519 backends over ideal signature functions, for every history of calls", jobs=g01,
   level_note="All key, message and signature bytes and wrong lengths symbolic; histories up to the bound; the signature functions are uninterpreted (G02).",
   explanation="The real signstate.c with the real backend adapters runs next to a reference model of the documented object state; every query, signature, verification and error is compared.", bounds="histories of 1 and 2 calls (thorough 3); 5-byte messages", assumptions=["ideal signature functions", "allocation succeeds (M01)"]),
 "D01": dict(level="model_checking", technique="symbolic execution of dhstate.c and the curve backends over ideal curve functions, for every history of calls", jobs=d01,
   level_note="All key bytes and wrong lengths symbolic; histories up to the bound; the curve functions are uninterpreted (D02, D03), New Hope objects are D04.",
   explanation="The real dhstate.c with the real backend adapters runs next to a reference model of the documented object state; every query and every error is compared.", bounds="histories of 1 and 2 calls (thorough 3)", assumptions=["ideal curve functions", "allocation succeeds (M01)"]),
}
