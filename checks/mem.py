import os
from vlib.common import HARN
from .hs import PROT, names, sub
from .aead import job as aead_job
REF = ["src/backend/ref/" + f for f in "cipher-chachapoly.c cipher-aesgcm.c hash-blake2s.c hash-blake2b.c hash-sha256.c hash-sha512.c dh-curve25519.c dh-curve448.c dh-newhope.c sign-ed25519.c".split()]
STUB = [os.path.join(HARN, "ideal_curves.c")]
CF = ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM", "-DED25519_NO_INLINE_ASM", "-include", os.path.join(HARN, "vf_oom.h")]
ALLP = PROT + ["src/protocol/signstate.c", "src/protocol/randstate.c"]
def m01(tier):
    q = tier == "quick"; r = []
    def j(n, defs, cost, cover, bounds, **kw): r.append(dict(name="m01-" + n, engine="se", harness="m01.c", defines=defs, cost=cost, timeout=800 if q else 7000, must_cover=cover + ["end"], bounds=bounds, cflags=CF, **kw))
    j("objects", ["PART=0"], 45, ["failed"], "every cipher, hash, DH, signing and random object, by identifier and by name; up to two failing allocations", sources=ALLP + REF, override_sources=STUB)
    n = names(tier); k = 8 if q else 12
    if q: n = [x for i, x in enumerate(n) if i >= 42 or i % 2 == (i // 2) % 2]
    for i in range(k):
        j("handshake-%d" % i, ["PART=1", "NAMES=" + ",".join('"%s"' % x for x in n[i::k])], 60, ["failed", "failed later"], "symmetric and handshake objects, both roles, by identifier and by name, any allocation failing; real backends: " + " ".join(n[i::k]), sources=ALLP + REF, override_sources=STUB)
    m = sub(tier); k = 6 if q else 12
    for i in range(k):
        j("late-%d" % i, ["PART=2", "NAMES=" + ",".join('"%s"' % x for x in m[i::k])], 40, ["split", "fixed", "prologue"], "prologues, fixed ephemeral and hybrid objects and the split at the end, any allocation failing: " + " ".join(m[i::k]), sources=PROT)
    r.append(aead_job("m01", "openssl-cipher", "gcm-openssl", 6, [(0, 0)], ["end"], "creation of the OpenSSL cipher when its context cannot be allocated"))
    return r
CHECKS = {
 "M01": dict(level="model_checking", technique="symbolic execution of every allocating call with each allocation failing by the solver's choice, all heap blocks tracked", jobs=m01,
   level_note="Every allocation of every constructor, on-demand object, prologue and split of the library; certificate and key objects are B03 and B04.",
   explanation="A call during which an allocation failed reports NO_MEMORY, hands out no object, and leaves the number of live heap blocks unchanged; the same call then works when memory is available; freeing everything leaves no live block.",
   bounds="one or two failing allocations per call; every pattern", assumptions=["curve arithmetic replaced by ideal functions (it allocates nothing)"]),
}
