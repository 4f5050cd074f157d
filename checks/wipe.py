import os
from vlib.common import HARN
from .hs import PROT, names, sub, split
REF = ["src/backend/ref/" + f for f in "cipher-chachapoly.c cipher-aesgcm.c hash-blake2s.c hash-blake2b.c hash-sha256.c hash-sha512.c dh-curve25519.c dh-curve448.c dh-newhope.c sign-ed25519.c".split()]
STUB = [os.path.join(HARN, "ideal_curves.c")]
CF = ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM", "-DED25519_NO_INLINE_ASM"]
ALLP = PROT + ["src/protocol/signstate.c", "src/protocol/randstate.c"]
SKIP = ("@noise_chachapoly_new", "@noise_aesgcm_new")
def setup(e, job):
    """A block given back to the allocator, or the arrays of a returning protocol function, hold nothing symbolic."""
    from vlib.se import Violation
    arrays = job.get("arrays")
    def dirty(o):
        i = o.tag.find(2)
        return i
    def on_free(st, o):
        if not any(f.fn.name.startswith("@noise_") for f in st.frames): return
        e.stats["asserts"] += 1; e.stats["assert_syntactic"] += 1
        i = dirty(o)
        if i >= 0: raise Violation("secret material left in a freed block (offset %d of %d)" % (i, o.size))
    def on_ret(st, fr):
        if not fr.fn.name.startswith("@noise_") or fr.fn.name in SKIP or not fr.allocas: return
        for a in fr.allocas:
            o = st.mem.get(a)
            if o is None or o.size < 16: continue
            e.stats["asserts"] += 1; e.stats["assert_syntactic"] += 1
            i = dirty(o)
            if i >= 0: raise Violation("secret material left in a dead array (%d bytes, offset %d) of %s" % (o.size, i, fr.fn.name))
    e.on_free = on_free
    if arrays: e.on_ret = on_ret
KINDS = "ChaChaPoly AESGCM BLAKE2s BLAKE2b SHA256 SHA512 25519 448 NewHope Ed25519 random".split()
def z01(tier):
    q = tier == "quick"; r = []
    for i, k in enumerate(KINDS):
        r.append(dict(name="z01-object-" + k, engine="se", harness="z01.c", sources=ALLP + REF, override_sources=STUB, cflags=CF, defines=["PART=0", "KIND=%d" % i], setup="checks.wipe:setup", arrays=True, engine_only=True, timeout=600,
                      must_cover=["end"] + ["cleared"] * (6 <= i <= 9), bounds="every key and input byte; set or generate, use, clear, replace, free", cost=40))
    for i, g in enumerate(split(sub(tier), 10)):
        r.append(dict(name="z01-handshake-%d" % i, engine="se", harness="z01.c", sources=PROT, defines=["PART=1", "NAMES=" + ",".join('"%s"' % x for x in g)], setup="checks.wipe:setup", arrays=True, engine_only=True, timeout=800,
                      must_cover=["end", "split", "failed write", "failed read"], bounds="released at every point, after refused writes and refused messages, after split: " + " ".join(g), cost=60))
    for i, g in enumerate(split(sub(tier)[::4 if q else 1], 4)):
        r.append(dict(name="z01-nomemory-%d" % i, engine="se", harness="m01.c", sources=PROT, cflags=CF + ["-include", os.path.join(HARN, "vf_oom.h")], defines=["PART=2", "NAMES=" + ",".join('"%s"' % x for x in g)], setup="checks.wipe:setup", arrays=True, engine_only=True, timeout=800,
                      must_cover=["end", "split"], bounds="allocations failing in the split and while objects are made on demand: " + " ".join(g), cost=60))
    return r
CHECKS = {
 "Z01": dict(level="model_checking", technique="symbolic execution with symbolic secrets; every block given to free and every array of a returning protocol function is inspected for terms over them", jobs=z01,
   level_note="Every object kind, every stopping point of a handshake of every pattern; every secret value.",
   explanation="All secrets are symbolic, so a byte left over from one is a term over symbolic variables (conditional or partial wipes included); at every free and at every return of a protocol function the executor looks for such bytes.",
   bounds="one object or one handshake each; arrays of 16 bytes and more", assumptions=["scalars and registers are not looked at; the IR before machine-dependent optimisation is what is judged"]),
}
