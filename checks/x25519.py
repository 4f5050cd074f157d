from vlib.common import repo
def d02(tier):
    q = tier == "quick"; r = []
    def j(nm, part, bounds, ideal=None, raw=True, d=(), **kw):
        r.append(dict(name="d02-" + nm, engine="se", harness="x25519.c", sources=["src/protocol/util.c"] if part == 5 else [], cflags=["-I" + repo("src"), "-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM"], raw=raw, timeout=800, must_cover=["end"], bounds=bounds, defines=["PART=%d" % part] + list(d), ideal=ideal or {}, **kw))
    P = {"fmul": "ideal_fmul", "fsquare_times": "ideal_fsquare_times"}
    j("product", 0, "all limbs of both factors up to 2^54 + 2^51 + 2^14")
    j("square", 1, "all limbs up to 2^54 + 2^51 + 2^14", d=["COUNT=1"])
    for n in (2,) if q else (2, 3): j("square-%d" % n, 1, "all limbs up to 2^51 + 2^14; %d squarings" % n, d=["COUNT=%d" % n], cost=50)
    j("step", 2, "every four coordinates and difference with limbs up to 2^51 + 2^14", P)
    j("inverse", 3, "every number with limbs up to 2^51 + 2^14", P, validate=False)
    j("ladder", 4, "every 256-bit scalar and every point; all 256 steps", {"fmonty": "ideal_fmonty"}, raw=False, validate=False, cost=60)
    j("whole", 5, "every private key and every 32-byte public value", {"cmult": "ideal_cmult", "crecip": "ideal_crecip", "fmul": "ideal_fmul_uf", "fcontract": "ideal_fcontract"}, raw=False, validate=False)
    j("encode", 6, "every number with limbs up to 2^51 + 2^14", raw=False, cost=60)
    j("encode-unique", 7, "every number with limbs up to 2^51 + 2^14", raw=False, cost=60)
    return r
CHECKS = {
 "D02": dict(level="model_checking", technique="symbolic execution of the LLVM IR of the real code; field arithmetic as exact integer polynomials whose congruence modulo 2^255-19 Z3 decides, the ladder and the encoding by normal form and Z3", jobs=d02,
   level_note="Each function of the 64-bit implementation for every input in the range that its callers keep to; the ranges are themselves checked at every call.",
   explanation="Products, squares, one ladder step, inversion and encoding of the real code are each compared with RFC 7748 for every input; the ladder runs on an entirely symbolic scalar with the step ideal, and the whole function on symbolic keys with its parts ideal, so that order, operands, clamping and masking are decided too.",
   bounds="all inputs of curve25519_donna in its 64-bit form; the number of repeated squarings in one call checked to 2 (quick) or 3, larger counts by the loop's invariant ranges",
   assumptions=["libsodium's X25519 is the standard one", "the 32-bit implementation, used on 32-bit machines only, is outside"]),
}
