import os
from vlib.common import HARN
PB = ["src/protobufs/protobufs.c"]
KINDS = "int32 uint32 int64 uint64 sint32 sint64 sfixed32 fixed32 sfixed64 fixed64 float double bool string bytes".split()
OPS = KINDS + "alloc_string alloc_bytes start_element skip peek_tag peek_size end_element at_end_element stop".split()
def b01(tier):
    r = []
    for k, nm in enumerate(KINDS):
        r.append(dict(name="b01-" + nm, engine="se", harness="b01.c", sources=PB, defines=["PART=0", "KIND=%d" % k, "MAXS=%d" % (4 if tier == "quick" else 12)], cost=12 if k < 4 else 7, timeout=800,
            must_cover=["limit", "short", "tagged", "untagged", "skip", "wrong tag", "wrong type", "end"], bounds="one %s field, every value, every tag from none to 2^29-1, every measuring limit, every buffer capacity up to two bytes more than needed" % nm))
        for pos in range(3):
            r.append(dict(name="b01-%s-nested%d" % (nm, pos), engine="se", harness="b01.c", sources=PB, defines=["PART=1", "KIND=%d" % k, "FIXK=%d" % pos, "MAXS=%d" % (2 if tier == "quick" else 4)], cost=6, timeout=800,
                must_cover=["inner skipped", "end", "trailing", "early end", "inner field"], bounds="%s as field %d of an element holding a nested element" % (nm, pos)))
    for k in (13, 14):
        for n in (127, 128, 160) if tier == "quick" else (127, 128, 255, 300, 1000):
            r.append(dict(name="b01-%s-len%d" % (KINDS[k], n), engine="se", harness="b01.c", sources=PB, defines=["PART=0", "KIND=%d" % k, "NFIX=%d" % n, "MAXS=%d" % n, "CAP=%d" % (n + 40)], cost=20 + n // 4, timeout=2500, must_cover=["limit", "short", "tagged", "untagged", "skip", "end"], bounds="%s of %d bytes" % (KINDS[k], n)))
    return r
def b02(tier):
    r = []; q = tier == "quick"
    for k, nm in enumerate(OPS):
        s = nm.endswith(("string", "bytes"))
        n = {13: 6, 14: 7, 15: 5, 16: 7, 17: 12, 18: 11}.get(k, 14) + (0 if q else 2 if s else 0)
        if not q and k in (17, 18): n = 14
        r.append(dict(name="b02-" + nm, engine="se", harness="b02.c", sources=PB, defines=["OP=%d" % k, "N=%d" % n, "ROOM=%d" % (2 if q else 3)], cost=n * 4 if k > 12 else n, timeout=800 if q else 7000, must_cover=["ok", "sticky"] + (["bad"] if nm != "stop" else []),
            bounds="one %s call from every reader state over every byte string of 0 to %d bytes, every tag%s" % (nm, n, ", room for 0 to %d bytes" % (2 if q else 3) if s else "")))
    for k in (13, 15):
        for L in (3, 5) if q else (3, 5, 7):
            r.append(dict(name="b02-%s-utf8-%d" % (OPS[k], L), engine="se", harness="b02.c", sources=PB, defines=["OP=%d" % k, "UTF=1", "N=%d" % (L + 1), "ROOM=%d" % (L + 1)], cost=25, timeout=800 if q else 7000, must_cover=["ok", "bad"], bounds="every text of 0 to %d bytes" % L))
    return r
KEYS = ["src/keys/certificate.c"] + PB
TYPES = dict(CERT=3, CHAIN=8, SUBJ=2, PUBK=4, META=5, SIGN=3, EXTRA=5, ENCK=1, PRIV=1, PRIVK=4)
FULL = dict(CERT="Certificate", CHAIN="CertificateChain", SUBJ="SubjectInfo", PUBK="PublicKeyInfo", META="MetaInfo", SIGN="Signature", EXTRA="ExtraSignedInfo", ENCK="EncryptedPrivateKey", PRIV="PrivateKey", PRIVK="PrivateKeyInfo")
def b03(tier):
    r = []; q = tier == "quick"; to = 800 if q else 7000
    def j(n, defs, cost, cover, bounds): r.append(dict(name="b03-" + n, engine="se", harness="b03.c", sources=KEYS, cflags=["-include", os.path.join(HARN, "vf_oom.h")], defines=defs, cost=cost, timeout=to, must_cover=cover, bounds=bounds))
    for t, tag in TYPES.items():
        D = ["TYPE=" + t, "TAG=%d" % tag]; N = FULL[t]
        for m in dict(SUBJ=(15, 17, 24), SIGN=(15, 52, 56), PRIV=(15, 17, 24)).get(t, (0,)):
            j("build-%s%s" % (t, "-%d" % m if m else ""), ["PART=0", "MAXS=%d" % (1 if q or t in ("ENCK", "SUBJ", "SIGN", "PRIV") else 2)] + D + (["FIELDS=%d" % m] if m else []), 35 if t == "ENCK" else 10, ["short", "end"],
              "%s, every subset of%s fields, texts and blobs of 0 or 1 byte%s, up to two entries in each list, every value; tagged and untagged" % (N, " the fields in mask %d" % m if m else " its", "" if q else " (2 where it fits)"))
        if t not in ("PRIV", "PRIVK"):
            j("bytes-" + t, ["PART=1", "NFIX=3", "NVAR=1"] + D, 10, ["ok", "bad"], "%s read from every string of 0 to 3 bytes" % N)
            n = dict(CERT=4, CHAIN=4).get(t, 4) if q else 5
            j("bytes4-" + t, ["PART=1", "NFIX=%d" % n] + D, 30, ["ok", "bad"], "%s read from every string of %d bytes" % (N, n))
            j("elem-" + t, ["PART=1", "NFIX=%d" % (5 if q else 6), "NEST=1"] + D, 12, ["ok", "bad"], "%s as an element of any declared length with %d bytes following" % (N, 3 if q else 4))
        else:
            j("bytes-" + t, ["PART=1", "NFIX=%d" % (3 if q else 4)] + D, 8, ["ok", "bad"], "%s read from every string of %d bytes" % (N, 3 if q else 4))
        j("oom-read-" + t, ["PART=2", "DEPTH=%d" % (1 if q else 2), "REPN=%d" % (2 if q else 5)] + D, 6, ["failed", "end"], "reading a complete %s with any one allocation failing; later attempt with memory available" % N)
        j("oom-build-" + t, ["PART=3", "STEPS=%d" % (5 if q else 6)] + D, 9, ["failed", "end"], "%s: %d set, add or insert calls on any field, any one allocation failing in each" % (N, 5 if q else 6))
    for t, pre in (("SUBJ", "0x22,3"), ("SUBJ", "0x2a,3"), ("CERT", "0x12,3"), ("CERT", "0x1a,3"), ("CHAIN", "0x42,5,0x12,3"), ("CHAIN", "0x42,5,0x1a,3"), ("SIGN", "0x1a,3"), ("SIGN", "0x2a,3"), ("EXTRA", "0x22,3"), ("PRIV", "0x22,3"), ("PRIV", "0x2a,3")):
        j("nested-%s-%s" % (t, pre.replace(",", "-").replace("0x", "")), ["PART=1", "TYPE=" + t, "TAG=%d" % TYPES[t], "PRE=" + pre, "NFIX=%d" % (pre.count(",") + 4)], 10, ["ok", "bad"], "%s holding an element (header %s) of any 3 bytes" % (FULL[t], pre))
    j("arrays", ["PART=4", "TYPE=META", "TAG=1", "STEPS=%d" % (6 if q else 8)], 8, ["failed", "end"], "string, byte and value arrays: %d additions, every position, any one allocation failing in each" % (6 if q else 8))
    return r
LOADER = ["src/keys/loader.c", "src/protocol/names.c", "src/protocol/cipherstate.c", "src/protocol/hashstate.c", "src/protocol/util.c"] + KEYS
def b04(tier):
    r = []; q = tier == "quick"
    def j(n, defs, cost, cover, bounds): r.append(dict(name="b04-" + n, engine="se", harness="b04.c", sources=LOADER, override_sources=[os.path.join(HARN, "ideal_kdf.c")], cflags=["-include", os.path.join(HARN, "vf_oom.h"), "-include", os.path.join(HARN, "vf_file.h")], defines=defs, cost=cost, timeout=800 if q else 7000, must_cover=cover + ["end"], bounds=bounds))
    K = ("an empty key", "a key with an identity and one key pair", "a longer key")
    for k in range(3):
        j("save-%d" % k, ["PART=0", "KIND=%d" % k], 40, ["tiny", "short", "retry", "unknown"], "%s, 19 protection names (5 valid), passphrases of 0 to 3 bytes, every amount of room up to two bytes more than needed, every salt" % K[k])
        for lo, hi, dm, what in ((0, 2, "", "the version field"), (4, 29, "", "the protection name"), (31, 35, "", "the salt"), (36, 38, "&0x7f", "the iteration count"), (40, 90, "", "the protected data")):
            j("alter-%d-%d" % (k, lo), ["PART=1", "MODE=1", "KIND=%d" % k, "LO=%d" % lo, "HI=%d" % hi, "DMASK=" + dm], 7, [], "%s, ChaChaPoly_BLAKE2b_PBKDF2, any one byte of %s altered in any way" % (K[k], what))
    for m, nm, what in ((0, "passphrase", "any other passphrase of 0 to 3 bytes"), (2, "data", "any alteration of the protected data"), (3, "salt", "any alteration of the salt"), (4, "cut", "cut off after any byte")):
        j("wrong-" + nm, ["PART=1", "MODE=%d" % m], 8, [], "three keys, five protections, passphrases of 0 to 2 bytes; " + what)
    j("form", ["PART=2"], 40, ["incomplete", "unknown", "short", "ok", "bad contents"], "every file with one required field missing or wrong, 19 protection names, contents of any 0 to 3 bytes, salts of 0 to 2 bytes, iterations 128 to 16383")
    j("oom", ["PART=3"], 7, ["save failed", "load failed"], "three keys, five protections, any one allocation failing")
    j("files", ["PART=4"], 7, ["save failed", "load failed", "save out of memory", "load out of memory", "empty", "ok"], "certificate, chain and key files; any one file operation or allocation failing; a file of 0 or 65536 bytes")
    j("large", ["PART=5"], 25, [], "keys of 65404 to 66004 bytes")
    j("certificates", ["PART=6"], 6, ["ok", "cut", "after", "out of memory"], "a certificate or a chain of one or two, loaded as either; shortened anywhere; followed by an unknown field; any one allocation failing")
    return r
CHECKS = {
 "B04": dict(level="model_checking", technique="symbolic execution of the key and certificate loader and saver over an ideal AEAD and key derivation, with symbolic keys, passphrases, file contents, allocation and file failures", jobs=b04,
   level_note="PBKDF2 and the AEADs are ideal functions here (H02 and C01 to C05 decide them); the file system is one in-memory block whose operations may fail.",
   explanation="What is saved has the documented form under a fresh salt and loads back with the same passphrase; a wrong passphrase, altered contents, or a shortened file is refused with no key released; incomplete files, unknown protections, too little room, failing memory and failing files are reported, with nothing leaked and no key bytes left in the caller's buffer.", bounds="see each job", assumptions=["ideal AEAD and key derivation", "one failing allocation or file operation per call", "alterations of the tags and lengths between the fields are outside the bounds"]),
 "B03": dict(level="model_checking", technique="symbolic execution of the generated certificate and key readers and writers against a reference driven by the documented schema, over every byte string and every allocation failure", jobs=b03,
   level_note="The whole schema of doc/noise-certificate.proto is a table in the harness; objects, byte strings and the failing allocation are symbolic, and all heap blocks are tracked.",
   explanation="An object built through the setters reads back equal after being written into exactly the measured room; any byte string is accepted exactly when a reference parser accepts it and then shows the same fields, and is otherwise refused with an error, no object and no leak; whichever allocation fails, the error is NO_MEMORY, nothing leaks, and the same call works afterwards.", bounds="see each job", assumptions=["one allocation failure per call"]),
 "B01": dict(level="model_checking", technique="symbolic execution of the protobuf library against a reference encoder, write then read back, for every value, tag and capacity", jobs=b01,
   level_note="Every value, tag and string byte symbolic; one field in full generality, and each type at each position of a two-level nesting; strings to 4 bytes and of 127, 128 and 160 bytes.",
   explanation="The encoding produced by the real writer equals that of an independent forward encoder; measuring predicts its length; a too-small buffer yields the sticky error and no access outside it; peeking, skipping and reading return exactly what was written.", bounds="see each job", assumptions=["tags within the documented range 0..2^29-1", "allocation succeeds (B03)"]),
 "B02": dict(level="model_checking", technique="symbolic execution of every protobuf reader from every reader state over symbolic bytes, against a reference parser", jobs=b02,
   level_note="Each job takes one reader call from an arbitrary state (position and earlier error) over arbitrary bytes, so that by induction on the calls any sequence is covered; every access is bounds-checked against an exact-size block.",
   explanation="Result, value, consumed length and error of the real reader equal those of an independent parser of the documented format; text is accepted exactly when it is well-formed UTF-8 without NUL.", bounds="see each job", assumptions=["allocation succeeds (B03)"]),
}
