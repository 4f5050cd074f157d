def cb(name, h, src, defs, unwind, bounds, fn, to=600, **kw): return dict(name=name, engine="cbmc", harness=h, sources=["src/protocol/" + s for s in src], defines=defs, unwind=unwind, timeout=to, functions=fn, bounds=bounds, **kw)
NFN = ["noise_name_to_id", "noise_id_to_name", "noise_protocol_name_to_id", "noise_protocol_id_to_name"]
def se(name, h, src, defs, bounds, must, to=600, **kw): return dict(name=name, engine="se", harness=h, sources=["src/protocol/" + s for s in src], defines=defs, timeout=to, bounds=bounds, must_cover=must, **kw)
UN = ["memcmp.0:16", "memcpy.0:16", "strlen.0:16"]
def n01(tier):
    r = []
    if tier != "quick":
        for lo, hi in ((0, 46), (47, 52), (53, 60)):
            r.append(cb("n01-accept-%d" % lo, "n01.c", ["names.c"], ["PART=1", "NLO=%d" % lo, "NHI=%d" % hi], 62, "every string of %d..%d bytes" % (lo, hi), NFN, 5000, unwindset=UN, cost=900))
        r.append(cb("n01-format", "n01.c", ["names.c"], ["PART=3"], 70, "every value of every identifier field, every buffer size 0..61", NFN, 5000, unwindset=UN, cost=900))
    import itertools
    for a in range(6):
        for alt, ln in ((1, 5 if a in (0, 1, 2) else 8), (0, 13 if a == 2 else 15)):
            r.append(se("n01-parse-%d-%s" % (a, "alt" if alt else "long"), "n01.c", ["names.c"], ["PART=2", "FREE=%d" % (1 << a), "PAIR=%d" % (1 - alt), "FREELEN=%d" % ln], "any bytes in field %d of a name (0 to %d bytes, separators included)%s" % (a, ln, ", two supported names in each other field, one byte more or not" if alt else ""), ["accepted", "refused"], 800, cost=60))
    for a, b in itertools.combinations(range(6), 2):
        r.append(se("n01-parse-%d%d" % (a, b), "n01.c", ["names.c"], ["PART=2", "FREE=%d" % (1 << a | 1 << b), "PAIR=1", "FREELEN=%d" % (6 if tier == "quick" else 8)], "any bytes in fields %d and %d of a name (0 to %d bytes each), supported names in the other fields" % (a, b, 6 if tier == "quick" else 8), ["refused"], 800, cost=60))
    MU = ["supported", "too small", "unknown"]
    for lo, hi, rest in ([(0, 1, 0), (15, 16, 0), (34, 35, 0)] + [(l, l + 8, 1) for l in range(0, 40, 8)] if tier == "quick" else [(l, l + 3, 0) for l in range(0, 40, 3)]) + [(-1, 0, 0)]:
        r.append(se("n01-format-%s%s" % (lo if lo >= 0 else "unknown", "-rest" * rest), "n01.c", ["names.c"], ["PART=4", "LO=%d" % max(lo, 0), "HI=%d" % hi] + ["REST"] * rest,
            "%s, pattern: %s, every buffer size 0..61, parsed back" % ("every value of the prefix and hybrid identifier" if rest else "every value of every identifier field", "number %d to %d of the list" % (lo, hi - 1) if lo >= 0 else "not in the list"), MU if lo >= 0 else ["unknown"], 800, cost=60))
    for c in range(8):
        r.append(se("n01-name-%d" % c, "n01.c", ["names.c"], ["PART=0", "NAME=1", "CAT=%d" % c], "every name of 0..19 bytes in one category (7: any other integer)", ["unknown"] + ["known"] * (c != 7)))
        r.append(se("n01-id-%d" % c, "n01.c", ["names.c"], ["PART=0", "NAME=0", "CAT=%d" % c], "every identifier in one category (7: any other integer)", ["unknown"] + ["known"] * (c != 7)))
    return r
def u01(tier):
    a, b = (64, 14) if tier == "quick" else (250, 40)
    return [se("u01-compare", "u01.c", ["util.c"], ["PART=0", "MAXL=%d" % a], "all contents and every length 0..%d" % a, ["end", "equal", "different", "zero", "nonzero"]),
            se("u01-wipe", "u01.c", ["util.c"], ["PART=1", "MAXL=%d" % b], "every sub-range of every length 0..%d" % b, ["end"])]
def e01(tier):
    return [cb("e01-strings", "e01.c", ["errors.c"], ["PART=0"], 40, "every int error code, every buffer size 0..36", ["noise_strerror"]),
            se("e01-fingerprint", "e01.c", ["util.c"], ["PART=1"], "every digest, type, key length and buffer size 0..100", ["full", "basic", "refused"])]
CHECKS = {
 "N01": dict(level="model_checking", technique="symbolic execution of names.c over symbolic names, identifiers and buffer sizes (thorough: also CBMC over whole symbolic strings)", jobs=n01,
   level_note="Every single name and identifier; composite names with any bytes in one field (to 15 bytes) or in any two fields (to 6 bytes); every identifier combination and every buffer size in formatting. Thorough adds every whole string of 0..60 bytes with CBMC.",
   explanation="The real names.c runs on symbolic bytes in exactly sized objects next to a reference parser and formatter; whatever the solver can pick, acceptance, identifiers, text and terminator must agree, and formatting is parsed back.",
   bounds="names of 0..19 bytes; composite names with one field of 0..15 or two of 0..6 arbitrary bytes; buffers of 0..61 bytes", assumptions=[]),
 "U01": dict(level="model_checking", technique="symbolic execution of util.c with symbolic contents and every length", jobs=u01,
   level_note="Every content and every length up to the bound.", explanation="The symbolic executor runs the real helpers on exactly sized symbolic objects and compares with the definition byte by byte.", bounds="lengths 0..64 (thorough 0..250)", assumptions=[]),
 "E01": dict(level="model_checking", technique="CBMC bounded model checking of errors.c and the fingerprint formatter with symbolic codes, digests and buffer sizes", jobs=e01,
   level_note="Every error code and buffer size; every SHA-256 digest value (the hash is a recorder, its correctness is H01).", explanation="CBMC executes the real formatting code on exactly sized buffers and compares with the documented text.", bounds="buffers of 0..36 and 0..100 bytes", assumptions=["snprintf behaves as the C standard says"]),
}
