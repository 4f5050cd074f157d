#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Single source of the property texts."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)
S = "src/protocol/"; R = "src/backend/ref/"; C = "src/crypto/"

prop("C01", "A cipher key never encrypts two messages under the same nonce",
 "For one key set in a cipher object, the nonces used by successful encryptions are strictly increasing, start at zero for a fresh key, and never reach 2^64-1; at that value encryption and decryption fail with the nonce error and do nothing. Setting the nonce can only move it forward, and a failed decryption does not advance it.",
 ["inputs","histories"], "every nonce value, every sequence of set-key / set-nonce / encrypt / decrypt calls up to the bound, every buffer size",
 "Unit tests encrypt a handful of messages from nonce zero; wrap-around at 2^64-1, rollback by set-nonce and failed decryption in the middle of a history are single points among 2^64.",
 [S+"cipherstate.c"], [("nonce checks and increments", "cipherstate.c: encrypt/decrypt_with_ad, set_nonce, init_key")])
prop("C02", "Cipher calls respect buffer limits and grow or shrink by exactly one MAC",
 "Encrypting an n-byte message in a buffer yields exactly n plus MAC bytes and decrypting removes exactly the MAC, or, with no key set, leaves the data unchanged. A call that would exceed the buffer's capacity or the 65535-byte limit, that is shorter than a MAC, or that has missing arguments is refused with the documented error and changes nothing outside the declared buffer.",
 ["inputs","configurations"], "every size and capacity up to 2^17 including inconsistent ones, with and without key and associated data",
 "Tests use a few small well-formed buffers; the length arithmetic matters only at the boundaries (capacity-MAC+-1, 65535, 0).",
 [S+"cipherstate.c"], [("size and capacity checks", "cipherstate.c: encrypt/decrypt")])
prop("C03", "Forged or truncated ciphertexts are rejected and release no plaintext",
 "For both AEAD ciphers and in every backend, decryption succeeds if and only if the received tag equals the tag of that ciphertext, associated data, key and nonce. On failure the MAC error is returned and the caller's buffer does not contain the decrypted plaintext.",
 ["inputs","configurations"], "every key, nonce, associated data, ciphertext and tag of the bounded lengths, all 2^128 wrong tags",
 "Tests flip one byte of one vector; a comparison that skips some tag bits or covers only part of the associated data accepts a sliver of forgeries that no vector contains.",
 [R+"cipher-chachapoly.c", R+"cipher-aesgcm.c", "src/backend/sodium/cipher-chachapoly.c","src/backend/sodium/cipher-aesgcm.c","src/backend/openssl/cipher-aesgcm.c", S+"util.c"],
 [("constant-time tag comparison before decrypting", "cipher-*.c decrypt functions")])
prop("C04", "ChaChaPoly computes the RFC 8439 AEAD with Noise's nonce layout",
 "For every key, nonce, associated data and plaintext, encryption produces the RFC 8439 ChaCha20-Poly1305 ciphertext and tag with a nonce of 32 zero bits followed by the 64-bit little-endian counter. Decryption inverts it.",
 ["inputs"], "every key, nonce, associated data and plaintext byte at the bounded lengths (block boundaries included)",
 "A few fixed vectors; carry chains in Poly1305 and the counter/nonce high words are exercised only by rare values.",
 [R+"cipher-chachapoly.c", C+"chacha/chacha.c", C+"donna/poly1305-donna.c", "src/backend/sodium/cipher-chachapoly.c"],
 [("ChaCha20 block function, Poly1305 accumulator and padding", "chacha.c, poly1305-donna-64.h, cipher-chachapoly.c")])
prop("C05", "AESGCM computes AES-256-GCM with Noise's nonce layout",
 "For every key, nonce, associated data and plaintext, encryption produces the NIST AES-256-GCM ciphertext and tag with a nonce of 32 zero bits followed by the 64-bit big-endian counter. Decryption inverts it, whichever backend is compiled in.",
 ["inputs","configurations"], "every key, nonce, associated data and plaintext byte at the bounded lengths",
 "A few fixed vectors; one wrong table entry of 1024 or a lost GHASH carry bit shows only for particular bytes.",
 [R+"cipher-aesgcm.c", C+"aes/rijndael-alg-fst.c", C+"ghash/ghash.c", "src/backend/openssl/cipher-aesgcm.c"],
 [("AES key schedule and rounds, GHASH, counter increment", "rijndael-alg-fst.c, ghash.c, cipher-aesgcm.c")])
prop("H01", "The four hashes are SHA-256, SHA-512, BLAKE2s and BLAKE2b under any chunking",
 "For every message, each hash object returns the digest its name promises, with the standard digest and block lengths. The digest does not depend on how the message is divided over update calls, nor on what the object was used for before its last reset.",
 ["inputs","histories"], "every message byte at lengths around the padding and block boundaries, every two-way chunking, every prior use",
 "Tests hash a few known strings in one chunk; buffer-boundary states and length counters depend on the chunking and size.",
 [S+"hashstate.c", C+"sha2/sha256.c", C+"sha2/sha512.c", C+"blake2/blake2s.c", C+"blake2/blake2b.c", R+"hash-sha256.c", R+"hash-sha512.c", R+"hash-blake2s.c", R+"hash-blake2b.c"],
 [("compression functions, buffering and padding", "sha256.c, sha512.c, blake2s.c, blake2b.c")])
prop("H02", "HKDF and PBKDF2 follow their definitions for every input and length",
 "Key derivation returns the Noise HKDF outputs, HMAC-based with the extract-then-expand chain, truncated to the requested lengths, for every chaining key and input material. PBKDF2 returns the RFC 8018 output for every passphrase, salt, iteration count and output length, and outputs may alias inputs where documented.",
 ["inputs"], "every key and data byte and every requested length within the bounds, for all hash algorithms, aliased outputs included",
 "HKDF is only tested through a few vectors; key lengths around the block size, truncation and multi-block PBKDF2 output are not sampled.",
 [S+"hashstate.c"], [("HMAC, HKDF, PBKDF2", "hashstate.c: hmac, hkdf, pbkdf2")])
prop("S01", "Symmetric handshake state evolves exactly by the Noise rules",
 "Every mixing, encrypt-and-hash, decrypt-and-hash and initialisation operation changes the chaining key, handshake hash and cipher key exactly as the Noise specification says, for every input. An operation that fails leaves the hash and chaining key as they were.",
 ["inputs","histories"], "every sequence of operations up to the bound, every data byte, every hash/cipher size combination",
 "Vector tests fix a few sequences; that a failed decryption leaves the state untouched, or that hash-length differences truncate keys correctly, holds for all inputs or not at all.",
 [S+"symmetricstate.c"], [("mix_key, mix_hash, encrypt_and_hash, decrypt_and_hash", "symmetricstate.c")])
prop("S02", "Split yields the two specified transport keys and ends the symmetric state",
 "Splitting returns the two keys derived from the final chaining key, in specification order and each only when asked for, with nonces at zero. Afterwards the symmetric state can no longer encrypt, decrypt, mix or split.",
 ["inputs","histories"], "every chaining key, every combination of requested outputs, secondary-key inputs of the bounded lengths",
 "Tests split a few times with both outputs; swapped or shared keys for one of the request combinations go unnoticed.",
 [S+"symmetricstate.c", S+"handshakestate.c"], [("split", "symmetricstate.c: split; handshakestate.c: split")])
prop("N01", "Protocol names parse and format as exact inverses and nothing else parses",
 "A string is accepted as a protocol name if and only if it is the canonical name of a supported combination, and formatting its identifier returns the same string. Formatting never writes beyond the given buffer and reports an error if the name with its terminator does not fit; the same holds for single algorithm names.",
 ["inputs"], "every byte string up to the bound, every identifier, every buffer length",
 "Tests parse some good and a few bad names; acceptance of one odd string (prefix, empty component, wrong separator) is invisible.",
 [S+"names.c"], [("name tables and component scanner", "names.c: noise_protocol_name_to_id, id_to_name")])
prop("P01", "Every handshake pattern's messages are those of the Noise specification",
 "For each supported pattern, the sequence of messages, tokens, key requirements and pre-messages seen by a user is the published one, for both roles and with and without hybrid forward secrecy. A pattern identifier that is not supported is refused.",
 ["configurations"], "all supported patterns, both roles",
 "Vectors run each pattern with both ends sharing the same tables, so a fault in a shared table, a wrong requirement flag or an extra pre-message may agree with itself; only some have third-party vectors.",
 [S+"patterns.c", S+"handshakestate.c"], [("pattern tables, pattern expansion and reversal", "patterns.c")])
prop("K01", "Two honest parties always agree: same keys, same hash, payloads delivered",
 "For every pattern, prefix and algorithm sizes, two parties configured with matching keys, prologue and pre-shared key complete the handshake, deliver every payload unchanged, agree on the handshake hash and derive matching transport keys. All bytes on the wire and all keys are the ones the Noise specification prescribes.",
 ["configurations","inputs"], "all patterns x prefixes x role, every key, payload, prologue and PSK value (symbolic bytes), payload lengths within the bound",
 "Test vectors fix all keys and payloads; a dependence on particular values (zero bytes, lengths) or a step both ends get wrong together is not visible.",
 [S+"handshakestate.c", S+"symmetricstate.c", S+"patterns.c"], [("write/read message token processing, start, split", "handshakestate.c")])
prop("K02", "Handshake calls out of order are refused and a failed handshake is dead",
 "At every point the handshake object allows only the operation its action reports; anything else is refused without changing it. After any failed message the object reports failure, yields no keys, hash or further messages, and after a successful split it cannot split or exchange messages again.",
 ["histories","inputs"], "every sequence of API calls up to the bound, from every reachable action",
 "Tests follow the happy order with a few misuses; the space of call orders is exponential.",
 [S+"handshakestate.c"], [("action state machine", "handshakestate.c: write_message, read_message, split, get_action")])
prop("K03", "A tampered, truncated or mismatched handshake never completes with agreement",
 "If any authenticated handshake byte is changed in transit, or the parties use different prologues, pre-shared keys, protocols or static keys, the receiver reports an error no later than the next authenticated field, or at the latest the two ends derive different keys. A failed read delivers no payload and leaves the buffer cleared.",
 ["inputs","fault_sequences"], "every change of every byte of every message, every truncation, every mismatch of prologue/PSK/static key, all patterns",
 "Tests corrupt at most one byte of one message.",
 [S+"handshakestate.c", S+"symmetricstate.c"], [("transcript hashing of every field", "handshakestate.c, symmetricstate.c")])
prop("K04", "Handshake messages never read or write outside the caller's buffers",
 "For every message size, buffer capacity and payload size, reading and writing handshake messages either completes within the declared buffers or fails with a length error, and never touches memory outside them. A failed write leaves the message empty.",
 ["inputs","configurations"], "every capacity and size within the bound for every token, null and inconsistent buffers included",
 "Tests use buffers that are big enough; short and exact-fit buffers exist for every token and pattern.",
 [S+"handshakestate.c", S+"symmetricstate.c", S+"cipherstate.c"], [("remaining-space checks per token", "handshakestate.c: write/read")])
prop("K05", "A handshake starts only when exactly its required keys are present",
 "Starting succeeds if and only if every key, pre-shared key and role the protocol requires has been supplied, otherwise the documented specific error is returned and nothing starts. The keys, pre-shared key and prologue given are the ones used, and supplying ones that do not apply is refused.",
 ["configurations","histories"], "all patterns x roles x subsets of supplied parameters",
 "Tests leave out a few keys for a few patterns.",
 [S+"handshakestate.c", S+"patterns.c"], [("requirements computation and start checks", "handshakestate.c: new, start, needs_*/has_*")])
prop("K06", "Fallback re-uses the right keys with reversed roles and only when possible",
 "Falling back from a failed first message is allowed only to a fallback pattern, at the point the specification allows and with the needed ephemeral present, otherwise the documented error is returned. The new handshake has roles reversed, keeps static keys, prologue, pre-shared key and the old initiator's ephemeral as pre-message, and both ends then agree.",
 ["configurations","histories"], "all original patterns x fallback patterns x roles x moments, symbolic keys",
 "Vector tests cover successful IK to XXfallback; refusals and other originals are barely sampled.",
 [S+"handshakestate.c", S+"patterns.c"], [("fallback_to", "handshakestate.c: noise_handshakestate_fallback_to")])
prop("K07", "A null ephemeral public key from the peer is always rejected",
 "Whenever a received ephemeral public key is the all-zero value of a curve that defines a null key, the read fails with the invalid-public-key error and the handshake is failed. No non-null key is rejected for that reason, and static null keys behave as documented.",
 ["inputs"], "every public key byte string (2^256, 2^448), every pattern with an ephemeral",
 "The test suite does not inject a null ephemeral for each pattern, and near-null values are single points.",
 [S+"handshakestate.c", S+"dhstate.c"], [("null key detection", "dhstate.c: is_null_public_key; handshakestate.c: read E token")])
prop("D01", "Key objects hold exactly the key they were given, or none",
 "After any sequence of generate, set, copy, clear and query calls a DH object reports having a key, key pair or null key exactly as documented, returns the bytes that were set, and refuses wrong lengths, mismatched pairs, mismatched algorithms and missing keys with the documented error. Clearing a key leaves no part of it usable.",
 ["histories","inputs"], "all call sequences up to the bound from any state, every length and byte",
 "Tests walk one sequence per algorithm.",
 [S+"dhstate.c"], [("key type tracking", "dhstate.c")])
prop("D02", "Curve25519's shared secret is the X25519 function of RFC 7748",
 "For every private key and every 32-byte public value the shared secret is that of RFC 7748: the scalar is clamped, the top bit of the public value ignored, values above the prime and low-order points taken like any other, and the result encoded in its only reduced form. Neither key is changed.",
 ["inputs"], "every field element representation within the limb bounds",
 "A few vectors; limb carries fail for a fraction near 2^-50 of inputs.",
 [R+"dh-curve25519.c", C+"donna/curve25519-donna-c64.c", "src/backend/sodium/dh-curve25519.c"],
 [("field arithmetic, Montgomery ladder, clamping", "curve25519-donna-c64.c")])
prop("D05", "Curve25519 public keys are X25519 of the base point, and both sides agree",
 "For every private key the derived public key is X25519 of the base point, although it is computed on the Edwards curve from tables. Two parties using each other's public keys always compute the same secret.",
 ["inputs"], "every private key",
 "A few vectors.",
 [R+"dh-curve25519.c", C+"ed25519/ed25519.c"],
 [("scalar multiplication of the base point", "ed25519.c: curved25519_scalarmult_basepoint")])
prop("D03", "Curve448 computes the X448 function and both sides get the same secret",
 "For every private and public key the shared secret and derived public key are those of RFC 7748. Two parties using each other's public keys always compute the same secret.",
 ["inputs"], "every field element representation within the limb bounds",
 "A few vectors; limb carries fail for rare inputs.",
 [R+"dh-curve448.c", C+"curve448/curve448.c", C+"goldilocks/src/p448/arch_x86_64/p448.c"],
 [("field arithmetic, Montgomery ladder", "curve448.c, p448.c")])
prop("D04", "New Hope key exchange: both sides agree, encodings are exact, keys are cleared",
 "The polynomial encodings, arithmetic and error reconciliation used by New Hope are exact for all coefficient values, so the two sides derive the same secret whenever their raw values differ by less than the reconciliation bound. Messages of wrong length and uses in the wrong role are refused.",
 ["inputs"], "every coefficient value (0..12288 and all 14/16 bit encodings), every reconciliation vector",
 "Tests run a few random exchanges; wrong values at range edges are hit with tiny probability.",
 [R+"dh-newhope.c", C+"newhope/newhope.c", C+"newhope/poly.c", C+"newhope/error_correction.c", C+"newhope/reduce.c", C+"newhope/ntt.c"],
 [("reduction, packing, reconciliation", "reduce.c, poly.c, error_correction.c")])
prop("G01", "Signing objects hold exactly the key they were given, or none",
 "After any sequence of generate, set, copy, clear, sign and verify calls a signing object reports its keys exactly as documented, returns the bytes that were set, signs only with a private key, and refuses wrong lengths, mismatched pairs and missing keys with the documented error.",
 ["histories","inputs"], "all call sequences up to the bound from any state, every length and byte",
 "Tests walk one sequence.",
 [S+"signstate.c"], [("key type tracking", "signstate.c")])
prop("G02", "Ed25519 signatures: own signatures verify, altered ones do not",
 "Signing follows RFC 8032 for every key and message, every signature produced verifies under its public key, and verification accepts only if the recomputed point equals the transmitted one with a scalar in range. The public key derived from a private key is the standard one.",
 ["inputs"], "every key, message and signature bit at the bounded lengths; scalar/field arithmetic over all limbs within bounds",
 "A few vectors; scalar reduction modulo the group order and point encoding depend on rare carries.",
 [R+"sign-ed25519.c", C+"ed25519/ed25519.c"], [("scalar arithmetic, point encoding, comparison", "ed25519-donna, modm-donna-64bit.h")])
prop("R01", "Random output never repeats keystream, is rekeyed forward, and failures surface",
 "Every byte handed out by a random generator comes from keystream that is never handed out twice, the key is replaced after each request and mixed with fresh system entropy at the documented intervals, and a system entropy failure is reported rather than hidden. Padding fills exactly the requested area with zeroes or random bytes.",
 ["histories","inputs","fault_sequences"], "all request sizes and call sequences up to the bound, every system entropy outcome",
 "Tests only check that output looks random.",
 [S+"randstate.c", S+"rand_os.c"], [("fast-key-erasure keystream and reseed", "randstate.c")])
prop("U01", "Comparison, zero-test and wipe helpers are exact for every input",
 "The constant-time equality and zero tests return true if and only if all bytes are equal or zero, for every length and content, and the wipe and buffer helpers affect exactly the bytes given.",
 ["inputs"], "every content and length up to the bound",
 "Tests try a few equal/unequal pairs; a comparison that ignores certain bit combinations is not noticed.",
 [S+"util.c"], [("noise_is_equal, noise_is_zero, noise_clean", "util.c")])
prop("Z01", "Secret material is erased from memory when released",
 "When an object holding keys is freed or cleared, all of its memory is wiped before it is returned to the allocator, and no failing path skips that. Temporary key material used inside the protocol operations is wiped before they return.",
 ["histories","inputs"], "every object kind and operation exercised, every secret value",
 "Tests cannot see freed memory or dead stack frames.",
 [S+"util.c", S+"handshakestate.c", S+"symmetricstate.c", S+"cipherstate.c", S+"hashstate.c", S+"dhstate.c", S+"signstate.c", S+"randstate.c"],
 [("noise_clean / noise_free", "util.c and every free function")])
prop("T01", "Secret-dependent computation takes no secret-dependent branches or addresses",
 "Equality checks, tag verification, the ChaChaPoly cipher, the hashes, the curve operations and private key handling execute the same instructions and touch the same addresses whatever the secret values are. Only documented public outcomes, such as accept or reject, may steer control flow.",
 ["inputs"], "every value of the secret inputs at the bounded lengths",
 "Functional tests cannot see timing.",
 [S+"util.c", C+"chacha/chacha.c", C+"donna/curve25519-donna-c64.c", C+"donna/poly1305-donna.c", C+"ghash/ghash.c"],
 [("branch-free selection and comparison", "util.c, curve25519-donna-c64.c, chacha.c")])
prop("B01", "Protobuf values written are read back unchanged and measured exactly",
 "Whatever sequence of fields is written into a buffer is read back with the same tags, wire types and values, and measuring without a buffer predicts the exact size. Peeking reports what reading would then return; a write that does not fit fails with an error and stays inside the buffer.",
 ["inputs"], "every field value (all 32/64-bit values, strings up to the bound), every tag, every buffer capacity",
 "There are no tests for the protobuf library at all.",
 ["src/protobufs/protobufs.c"], [("varint, fixed, string, element readers and writers", "protobufs.c")])
prop("B02", "Reading arbitrary bytes as a protobuf is memory-safe and strict",
 "For every byte string, reading, skipping and peeking fields never accesses memory outside the buffer, always terminates, and reports malformed input - a field that overruns its element included - by a sticky error. Values accepted as text are exactly the well-formed strings the library's own documentation allows.",
 ["inputs"], "every byte string up to the bound, every sequence of reader calls up to the bound",
 "There are no tests for the protobuf library; malformed inputs are unbounded.",
 ["src/protobufs/protobufs.c"], [("bounds checks in readers, element nesting", "protobufs.c")])
prop("B03", "Certificates survive save and load, and malformed ones are refused safely",
 "A certificate, certificate chain or key object written by the library is read back equal, and parsing any byte string either yields a complete object or an error with nothing leaked and no memory misuse. Allocation failure during parsing is reported as an error.",
 ["inputs","fault_sequences"], "every object within the size bounds, every byte string up to the bound, every allocation failing",
 "There are no tests for the key file library.",
 ["src/keys/certificate.c", "src/keys/loader.c", "src/protobufs/protobufs.c"], [("generated readers and writers", "certificate.c")])
prop("B04", "Encrypted private key files open only with the right passphrase, unchanged",
 "A private key saved with a passphrase is loaded back identical with that passphrase, and any other passphrase, or a file whose fields were altered or which was shortened, is refused with an error and releases no key. Saving into a buffer that is too small, running out of memory, and a file that cannot be completely read or written are reported, without leaking and without leaving key bytes in the caller's buffer. The loaders accept a certificate or a chain where documented.",
 ["inputs","fault_sequences"], "every key, passphrase and protection name within the bounds, every buffer capacity, every alteration of a field (ideal cipher and key derivation), every failing allocation or file operation",
 "There are no tests for the key loader.",
 ["src/keys/loader.c", "src/keys/certificate.c"], [("noise_load/save_private_key", "loader.c")])
prop("E01", "Error strings and fingerprints are exact and never overrun the buffer",
 "Every error code yields its own text, truncated and terminated within the buffer given, and key fingerprints are formatted as documented for every hash value, never writing beyond the length given.",
 ["inputs"], "every integer error code, every buffer length, every digest",
 "Tests check a few.",
 [S+"errors.c", S+"util.c"], [("noise_strerror, noise_format_fingerprint", "errors.c, util.c")])
prop("M01", "Running out of memory is reported and leaves nothing leaked or dangling",
 "If any allocation inside an object-creating or key-duplicating call fails, the call returns the out-of-memory error, hands the caller no object, and frees everything it had allocated. A later attempt with memory available works.",
 ["fault_sequences"], "every allocation of every constructor failing, for all algorithms and patterns",
 "Tests never make an allocation fail.",
 [S+"util.c", S+"handshakestate.c", S+"symmetricstate.c", S+"cipherstate.c", S+"hashstate.c", S+"dhstate.c", S+"signstate.c", S+"randstate.c"],
 [("error paths of *_new, split, fallback", "src/protocol/*.c")])
prop("X01", "The echo example and key tool act safely on whatever their peers send",
 "The example client and server and the key tool refuse malformed messages, packets and files without memory misuse and never use keys that failed to load.",
 ["inputs"], "every packet and file content", "They have no tests.",
 ["examples/echo", "tools/keytool"], [("packet framing and option parsing", "examples/echo, tools/keytool")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
