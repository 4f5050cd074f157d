PROT = ["src/protocol/" + f for f in ("handshakestate.c", "symmetricstate.c", "cipherstate.c", "dhstate.c", "hashstate.c", "util.c", "names.c", "patterns.c")]
CH = ["ChaChaPoly_SHA256", "AESGCM_BLAKE2b", "AESGCM_SHA512", "ChaChaPoly_BLAKE2s"]
PLAIN = "N K X Xnoidh NN NK NX XN XK XX KN KK KX IN IK IX NXnoidh XXnoidh KXnoidh IKnoidh IXnoidh".split()
HFS = "NNhfs NKhfs NXhfs XNhfs XKhfs XXhfs KNhfs KKhfs KXhfs INhfs IKhfs IXhfs NXnoidh+hfs XXnoidh+hfs KXnoidh+hfs IKnoidh+hfs IXnoidh+hfs".split()
def names(tier):
    r = []
    for i, p in enumerate(PLAIN):
        r.append("Noise_%s_%s_%s" % (p, ("25519", "448")[i % 2], CH[i % 4]))
        r.append("NoisePSK_%s_%s_%s" % (p, ("448", "25519")[i % 2], CH[(i + 1) % 4]))
    r += ["Noise_NN_NewHope_ChaChaPoly_SHA256", "NoisePSK_NN_NewHope_AESGCM_SHA512"]
    for i, p in enumerate(HFS):
        dh = ("25519+NewHope", "448+25519", "25519+448", "448+NewHope")[i % 4]
        r.append("%s_%s_%s_%s" % (("Noise", "NoisePSK")[i % 2], p, dh, CH[i % 4]))
        if tier != "quick": r.append("%s_%s_%s_%s" % (("NoisePSK", "Noise")[i % 2], p, ("448+NewHope", "25519+NewHope", "448+448", "25519+25519")[i % 4], CH[(i + 2) % 4]))
    return r
def split(l, n): return [l[i::n] for i in range(n)]
def jobs(pid, harness, tier, nm, groups, extra=(), to=400, must=("end",), bounds=""):
    return [dict(name="%s-%d" % (pid.lower(), i), engine="se", harness=harness, sources=PROT, timeout=to, defines=["NAMES=" + ",".join('"%s"' % x for x in g)] + list(extra),
                 must_cover=list(must), opts=dict(max_assert_s=30), bounds=bounds + ": " + " ".join(g)) for i, g in enumerate(split(nm, groups)) if g]
def k01(tier): return jobs("K01", "k01.c", tier, names(tier), 16, ["FIXED=1"], bounds="every key, pre-shared key, 4-byte prologue and payload bytes (5, 0 and 3 bytes)")
def sub(tier):
    """a selection that contains every pattern once (quick) or every name"""
    n = names(tier)
    if tier != "quick": return n
    r = [x for i, x in enumerate(n[:2 * len(PLAIN)]) if i % 2 == (i // 2) % 2]
    return r + n[2 * len(PLAIN):]
def k02(tier): return jobs("K02", "k02.c", tier, sub(tier), 20, must=("end", "failed-write", "failed-read"), bounds="every stopping point; every refused operation at every point", to=600 if tier == "quick" else 6000)
def k03(tier):
    r = jobs("K03", "k03.c", tier, sub(tier), 20, ["MISMATCH=0"], must=("end",), bounds="any change of any field of any one message, any truncation at a field boundary or one byte short, one byte appended", to=600 if tier == "quick" else 6000)
    for j in r: j["name"] = j["name"].replace("k03", "k03-tamper")
    q = jobs("K03", "k03.c", tier, sub(tier), 8, ["MISMATCH=1"], must=("end", "mismatch"), bounds="any differing prologue, pre-shared key, static key, cipher or hash", to=600 if tier == "quick" else 6000)
    for j in q: j["name"] = j["name"].replace("k03", "k03-mismatch")
    return r + q
def one(pats, dh, tier):
    r = []
    for i, p in enumerate(pats):
        for k in range(1 if tier == "quick" else 4): r.append("%s_%s_%s_%s" % (("Noise", "NoisePSK")[(i + k) % 2], p, dh[(i + k // 2) % len(dh)], CH[(i + k) % 4]))
    return r
HD = ["25519+NewHope", "448+25519", "25519+448", "448+NewHope"]
def k05(tier):
    n = sub(tier) + ["Noise_XXfallback_25519_AESGCM_SHA256", "NoisePSK_XXfallback_448_ChaChaPoly_BLAKE2b", "Noise_XXfallback+hfs_25519+NewHope_ChaChaPoly_SHA512", "NoisePSK_XXfallback+hfs_448+448_AESGCM_BLAKE2s"]
    return jobs("K05", "k05.c", tier, n, 20, must=("end",), bounds="every subset of supplied keys, replaced prologues and pre-shared keys", to=600 if tier == "quick" else 6000)
def k06(tier):
    a = jobs("K06", "k06.c", tier, one(PLAIN, ["25519", "448"], tier), 12, ["HFS=0"], bounds="five histories of the first message", to=600 if tier == "quick" else 6000)
    b = jobs("K06", "k06.c", tier, one(HFS, HD, tier), 12, ["HFS=1"], bounds="five histories of the first message", to=600 if tier == "quick" else 6000)
    for j in b: j["name"] = j["name"].replace("k06", "k06-hfs")
    return a + b
def k07(tier): return jobs("K07", "k07.c", tier, sub(tier), 20, bounds="every public key value of the peer; null ephemeral, static or hybrid key", must=("end", "null", "accepted"), to=600 if tier == "quick" else 6000)
def pid(p):
    n = p.replace("XXfallback", "XX_FALLBACK").replace("+hfs", "hfs")
    return "NOISE_PATTERN_" + n.replace("noidh", "_NOIDH").replace("hfs", "_HFS")
def k04(tier):
    r = []
    for hfs, l, k in ((0, PLAIN, 8), (1, HFS, 10)):
        for i, g in enumerate(split(l, k)):
            r.append(dict(name="k04-%s%d" % ("hfs" if hfs else "", i), engine="se", harness="k04.c", sources=PROT, timeout=600, must_cover=["end", "written", "read", "no room", "bad length", "inconsistent"],
                     defines=["PATS=" + ",".join(pid(x) for x in g), "HFS=%d" % hfs, "ALL=%d" % (tier != "quick")], bounds="message sizes and capacities 0..25 with key objects of 2 to 5 bytes and a 2-byte MAC, payloads 0..5 written: " + " ".join(g)))
    return r
def p01(tier):
    r = [dict(name="p01-ids-" + n, engine="se", harness="p01.c", sources=PROT, timeout=600, must_cover=["end", "supported"] + mc, defines=["PART=0"] + d, bounds=b)
         for n, d, mc, b in (("std", ["SWEEP=0", "PREFIX=NOISE_PREFIX_STANDARD"], ["not applicable"], "all 2^96 pattern, key agreement and hybrid identifiers"), ("psk", ["SWEEP=0", "PREFIX=NOISE_PREFIX_PSK"], ["not applicable"], "the same with pre-shared keys"),
                             ("rest", ["SWEEP=1"], [], "all pattern, prefix, cipher, hash and role identifiers"))]
    return r + [dict(name="p01-run-%d" % i, engine="se", harness="p01.c", sources=PROT, timeout=600, defines=["PART=1", "PAT0=%d" % i, "PAT1=%d" % (i + 2)], bounds="complete handshakes, patterns %d and %d of the table, all role/prefix/curve combinations" % (i, i + 1)) for i in range(0, 40, 2)]
A = ["ideal hash, AEAD and key agreement: no collisions, no forgeries by an environment that does not know the key", "allocation succeeds (M01)", "stand-in backends of the same shape; New Hope public keys shortened to 40 and 48 bytes"]
T = "symbolic execution of handshakestate.c and everything above the primitives for both parties, over ideal primitives; every output compared with the Noise specification for all keys, payloads and prologues"
CHECKS = {
 "K01": dict(level="model_checking", technique=T, jobs=k01, level_note="All key, payload, prologue and pre-shared key bytes; every pattern; concrete payload lengths.",
    explanation="Two real handshake objects run symbolically against each other; every wire byte, handshake hash and transport message must equal that of a transcription of the Noise specification.",
    bounds="every supported pattern with both prefixes, payload lengths 0, 3, 5; 25519, 448 and NewHope shapes", assumptions=A),
 "K02": dict(level="model_checking", technique="symbolic execution of handshake histories with every refused operation tried at every point, over ideal primitives", jobs=k02, level_note="Every pattern and stopping point; all data symbolic.",
    explanation="At every point of a symbolic two-party run all operations other than the allowed one are attempted; they must be refused without effect on the rest of the run, which is compared with the specification. Failing reads and writes are tried at every message.",
    bounds="every supported pattern; failure at every message by lack of room, truncation or tampering", assumptions=A),
 "K03": dict(level="model_checking", technique="symbolic execution of two real parties over ideal primitives with a symbolic change to any field of any message, or a symbolic mismatch", jobs=k03, level_note="All values of the change, position chosen per field; ideal AEAD.",
    explanation="Message bytes are changed by an arbitrary nonzero symbolic difference, cut or extended; the reader must fail there or at the next authenticated field and deliver nothing.",
    bounds="one change per run; every field of every message of every pattern; cuts at field boundaries and one byte short; 4-byte prologues", assumptions=A + ["changes do not depend on secret values"]),
 "K05": dict(level="model_checking", technique="symbolic execution of creation, configuration and start of both roles with every subset of supplied parameters chosen symbolically; the completed handshake is compared with the specification", jobs=k05, level_note="Every pattern, role and subset; all data symbolic.",
    explanation="Each required item is left out or given (a solver-chosen subset, including a static key without its private part, and replaced prologues and pre-shared keys); start must report exactly what is missing, do nothing, and succeed after it is supplied, and the handshake must then be the specified one.",
    bounds="every pattern incl. fallback patterns; prologues 0, 4, 5, 7 bytes; pre-shared key lengths 0, 31, 32, 33", assumptions=A),
 "K06": dict(level="model_checking", technique="symbolic execution of fallback histories of two real parties over ideal primitives, compared with the specified XXfallback transcript", jobs=k06, level_note="Every original pattern, roles, moments; all data symbolic.",
    explanation="From every original pattern fallback is attempted at every moment of the first message and to every kind of target; where allowed, the two objects continue with the fallback pattern and every byte must be that of the specification for the reversed roles with the old ephemeral as pre-message.",
    bounds="one first message, delivered, tampered, undecryptable, not sent, or answered wrongly; both fallback patterns", assumptions=A),
 "K07": dict(level="model_checking", technique="symbolic execution of one real party against a specification-driven peer with arbitrary public keys", jobs=k07, level_note="All values of the peer's public keys; ideal primitives.",
    explanation="The peer follows the protocol but its ephemeral, static and hybrid public keys are arbitrary bytes; null ephemerals must be refused with the documented error and every other value accepted.",
    bounds="every pattern and role; every public key value at the curve's length", assumptions=A),
 "P01": dict(level="model_checking", technique="symbolic execution of creation with all identifiers as solver variables, and of complete two-party handshakes of every pattern, against an independent table of the published patterns", jobs=p01, level_note="All identifiers; every pattern; all data symbolic.",
    explanation="Creation must succeed exactly for the published combinations and show exactly their key requirements; the messages of a complete run must be the published token sequence for both roles.",
    bounds="all 32-bit identifier values; every pattern x prefix x curve x hybrid; payloads 0, 3, 5 bytes", assumptions=A),
 "K04": dict(level="model_checking", technique="symbolic execution of handshakestate.c, symmetricstate.c and cipherstate.c with symbolic sizes and capacities on heap blocks of symbolic size", jobs=k04, level_note="All sizes and capacities up to the bound, every token of every pattern, scaled-down key lengths.",
    explanation="One message of each pattern is written or read with solver-chosen sizes and capacities; every access of the code is checked against the symbolic size of the block it touches, and the outcome against the documentation.",
    bounds="blocks up to 25 bytes with scaled-down algorithm lengths (the code takes all lengths from the objects)", assumptions=["backends touch exactly the memory their interface describes (C03-C05, D02-D04, H01)", "behaviour depends on key and MAC lengths only through the objects' length fields"]),
}
