#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
H="hybrid-dilithium-sphincs/hybrid.c"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Every produced signature opens, verifies and has the documented form",
 "For every key pair and every message of 1 to 64 bytes, signing in compact or full mode succeeds, and both open and verify of the same mode accept the result under the matching public key, open returning exactly that message and its length. The signed message is laid out byte for byte as documented (mode id, message length, Ed25519 signature, and in compact mode Dilithium signature, nonce, message; in full mode message, Dilithium signature, SPHINCS+ signature), its reported length is exact, and each part is the signature the component scheme prescribes for that mode's signed content.",
 ["inputs","histories"],"all key pairs, all messages of 1..64 bytes, all nonces and signing randomness, both modes",
 "The tests sign a handful of random messages of a few lengths; full-mode open/verify is reached by no stable test at all.",
 [H,"common/hybrid-common.c"],[("compact sign/open/verify",H),("full sign/open/verify",H),("documented layout","hybrid.c header comment, README.md")],
 ["return code, signed message bytes and length, recovered message and length"])
prop("C02","Acceptance needs every component signature to be valid for the message and key",
 "A compact signature is accepted only if its Ed25519 and its Dilithium part are each valid, under their own part of the given public key, for the digest of nonce, message and SPHINCS+ public key; a full signature only if its Ed25519, Dilithium and SPHINCS+ parts are each valid for the message under their own part of the public key. No component is skipped, none can stand in for another, and a signature of one mode is never accepted by the other mode; conversely a signature whose parts are all valid is accepted.",
 ["inputs"],"every combination of component parts being genuine, made by another key, made for another message or nonce, taken from the other mode, or corrupted",
 "No test assembles a signature whose parts are individually valid but made by different keys or for different messages, and full mode is not covered by any stable test.",
 [H],[("sequence of component verifications in compact open",H),("sequence of component verifications in full open",H)],["return code of open and verify in both modes"])
prop("C03","Any change to a valid signed message, message or public key is rejected",
 "After any alteration of a valid signed message (any bit of any byte, in either mode), of the public key, or of the message handed to verify (content or length), open and verify fail. No second encoding of a valid signature is accepted: an Ed25519 scalar shifted by a multiple of the group order, reordered, repeated or padded Dilithium hints, or an edited nonce, length or mode byte are all rejected.",
 ["inputs"],"every byte position and bit of signed message, public key and message; every canonical-encoding degree of freedom of the components",
 "The tests tamper with a few hand-picked positions of compact signatures only; alternative encodings of valid parts are never tried.",
 [H,"dilithium2/packing.c","dilithium2/sign.c","tweetnacl/tweetnacl.c","sphincs/sign.c"],
 [("nonce, message and SPHINCS+ key bound by SHA3-512",H),("hint ordering and zero padding","dilithium2/packing.c unpack_sig"),("root comparison","sphincs/sign.c crypto_sign_verify"),("R comparison and scalar range","tweetnacl/tweetnacl.c crypto_sign_open")],
 ["return code of open and verify"])
prop("C04","Malformed arguments and encodings are refused with an error code",
 "Every call of the hybrid interface with a missing pointer, a message length outside 1 to 64, a signed length other than the one its mode and length byte prescribe, an unknown mode id, or a length byte outside 1 to 64 returns a non-zero code, for every value those fields can take, and never success. Stand-alone Dilithium verification likewise refuses missing pointers, message lengths outside 1 to 64 and any signature length other than 2420.",
 ["inputs"],"all NULL patterns, all mode-id and length-byte values, all signed lengths up to beyond the maximum and at integer-wrap boundaries, all message lengths",
 "The tests try a few wrong lengths and ids, not the full product, and nothing for full mode or the seed functions.",
 [H],[("argument checks at function entry",H),("id/length consistency checks in open",H)],["return code; no crash"])
prop("C05","A failed hybrid call leaves the caller's outputs untouched",
 "Whenever key generation, signing, opening or seed expansion of the hybrid interface returns an error, for whatever reason (bad argument, malformed or invalid signature, failing randomness), every caller-provided output buffer and length variable keeps the value it had before the call, so no unauthenticated message or half-made signature is released. No call ever modifies its inputs.",
 ["inputs","fault_sequences"],"every failing input class crossed with every entry point, and every failing randomness request",
 "Tests look at return codes only and never at the output buffers after a failure.",
 [H],[("outputs written only after all component checks",H)],["all caller buffers before and after the call"])
prop("C06","randombytes fills the whole buffer from the OS or reports failure",
 "For every request size and every sequence of operating-system answers (short reads, interruptions, temporary failures, errors), the random source returns success only after every requested byte was written with consecutive bytes delivered by the operating system, in order and nothing outside the buffer; it retries interruptions, on the device-file configuration reads only after the kernel reports at least 128 bits of entropy, and returns a non-zero code on any unrecoverable error. No file descriptor, stream or provider handle opened during the call is left open, whatever the outcome, and no exception leaves the JavaScript configuration.",
 ["fault_sequences","configurations"],"all answer sequences up to a bound on answers that deviate from the ideal, on each of the getrandom, raw system-call, device-file, Windows, BSD, WASI and JavaScript configurations",
 "The tests stub out one hand-written scenario per historical issue; they do not cover short reads at every offset, errors mid-way, or resource cleanup.",
 ["random/randombytes.c"],[("getrandom loop","random/randombytes.c randombytes_linux_randombytes_getrandom"),("device loop and entropy wait","random/randombytes.c randombytes_linux_randombytes_urandom, _wait_for_entropy"),("provider fallback","random/randombytes.c randombytes_win32_randombytes"),("JavaScript part","random/randombytes.c randombytes_js_randombytes_nodejs")],
 ["return code, buffer contents, set of open descriptors"])
prop("C07","Randomness failure always surfaces and fresh OS randomness is always used",
 "If the operating system's random source fails at any point during a key generation or signing call that needs randomness (hybrid, Dilithium, SPHINCS+, Ed25519 or box key generation), the call returns an error and never reports a key or signature. Otherwise all of the key seed, compact-mode nonce and SPHINCS+ signing randomness consist of fresh operating-system bytes obtained during that very call: the nonce is carried verbatim in the signed message and two calls never reuse bytes.",
 ["fault_sequences","histories"],"every index and offset at which the random source can fail, every randomised entry point, and all sequences of such calls up to a bound",
 "No test injects a randomness failure into key generation or signing, or relates outputs to the bytes obtained.",
 [H,"sphincs/sign.c","dilithium2/sign.c","tweetnacl/tweetnacl.c"],[("checked randombytes calls",H),("optrand","sphincs/sign.c crypto_sign_signature"),("key seeds","dilithium2/sign.c, tweetnacl/tweetnacl.c")],["return code, produced bytes, bytes requested from the OS"])
prop("C08","Key pairs are a pure function of the 160-byte seed in the documented layout",
 "From a 160-byte seed, key generation yields exactly the Ed25519 key of bytes 0-31, the Dilithium key of bytes 32-63 and the SPHINCS+ key of bytes 64-159, placed in public and secret key as documented, with the component public keys inside the secret key equal to those in the public key. The result depends on nothing else, every one of the 160 seed bytes influences the keys, and unseeded key generation equals seeded generation on 160 fresh random bytes.",
 ["inputs","histories"],"all seeds (each byte position over all values around several bases), repeated and interleaved calls",
 "Tests pin a few known-answer seeds; segment independence and the influence of every byte are not covered.",
 [H,"dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c"],[("keypair_seed segment copies",H)],["public and secret key bytes"])
prop("C09","Seed expansion is deterministic, documented and keeps the seed's entropy",
 "Expanding a 96-byte seed yields 160 bytes made of the first 32 bytes of the expansion of input bytes 0-63, then input bytes 64-95 verbatim, then the remaining 96 expansion bytes, and nothing else is written. Every byte of the input influences the output, so distinct seeds give distinct key material.",
 ["inputs"],"all 96 byte positions over all 256 values around several base seeds",
 "Tests compare two fixed vectors, which cannot show that every input byte matters.",
 [H,"common/shake_prng.c"],[("copy of input into temp seed and reassembly",H)],["expanded seed bytes"])
prop("C10","The SHAKE seed expander yields the defined stream for every length and split",
 "For every seed of at least 32 bytes and every output length greater than the seed's, one-shot expansion returns the prefix of SHAKE-256 over the seed followed by the byte 2; missing pointers, shorter seeds and output lengths not exceeding the seed's are refused with distinct negative codes and no output. Drawn incrementally, any sequence of requests returns consecutive pieces of that stream, each request consuming whole 8-byte blocks.",
 ["inputs","histories"],"all seed lengths and output lengths in a range spanning several sponge blocks, all request sequences up to a depth over block-boundary sizes",
 "The tests use a few lengths and one request pattern.",
 ["common/shake_prng.c","common/fips202.c","common/domains.h"],[("seedexpander block handling","common/shake_prng.c"),("argument checks","common/shake_prng.c seedexpander_wrapper")],["output bytes, return code"])
prop("C11","SHA3 and SHAKE outputs match FIPS 202 however input and output are split",
 "For every input length and every way of splitting absorbing and squeezing into calls, SHA3-256/384/512 and SHAKE-128/256 (one-shot and incremental) return the FIPS 202 value, zero-length pieces changing nothing. A cloned context and its original continue independently and identically, and every context is released exactly once with no memory left behind.",
 ["inputs","histories"],"all input lengths over several rate blocks, all operation sequences (absorb, finalize, squeeze, clone, release) up to a depth with block-boundary sizes",
 "No stable test exercises the hash functions directly; they are only covered through a few fixed call shapes.",
 ["common/fips202.c"],[("keccak_inc_absorb/finalize/squeeze offset tracking","common/fips202.c"),("keccak_absorb padding","common/fips202.c")],["digest and stream bytes"],
 [("ctx[25]","number of not-yet-permuted absorbed bytes / not-yet-squeezed bytes","common/fips202.c")])
prop("C12","The Dilithium2 component follows its specification exactly",
 "Dilithium key generation and signing return exactly the key and the deterministic signature that the Dilithium2 specification (as parameterised in the parameter header) defines for the seed, key and message, of any length; and verification accepts a 2420-byte signature precisely when the specification does, enforcing the bounds on response coefficients, the hint encoding rules and the challenge equation. The combined signed-message form carries signature then message, works in place where documented, and opening returns the message only if verification succeeds.",
 ["inputs"],"all seeds, messages and signatures; whole-domain enumeration of coefficient arithmetic; signatures violating exactly one acceptance rule",
 "Random tests practically never produce a signature that violates just one rule, nor reach the rare rejection branches of signing and sampling.",
 ["dilithium2/sign.c","dilithium2/packing.c","dilithium2/poly.c","dilithium2/polyvec.c","dilithium2/rounding.c","dilithium2/reduce.c","dilithium2/ntt.c"],
 [("norm checks","dilithium2/sign.c, poly.c poly_chknorm"),("hint decoding","dilithium2/packing.c"),("rejection sampling","dilithium2/poly.c"),("rounding","dilithium2/rounding.c")],["keys, signatures, verification results"])
prop("C13","The SPHINCS+ component follows its specification exactly",
 "SPHINCS+ key generation and signing return exactly the key and 49856-byte signature that SPHINCS+-SHAKE-256f-simple defines for the seed, message (any length) and signing randomness, for every hypertree leaf, few-time-tree leaf and chain position a digest can select; verification accepts precisely those the specification accepts. The combined signed-message form carries signature then message, and opening returns the message only if verification succeeds and reports length zero otherwise.",
 ["inputs"],"all leaf indices, few-time indices and chain digits; all messages; alterations at every 32-byte node of a signature",
 "A test run signs a few messages, selecting 35 of 17920 few-time leaves each, and checks no reference value.",
 ["sphincs/sign.c","sphincs/fors.c","sphincs/merkle.c","sphincs/wots.c","sphincs/wotsx1.c","sphincs/utils.c","sphincs/utilsx1.c","sphincs/address.c","sphincs/hash_shake.c","sphincs/thash_shake_simple.c"],
 [("tree hashing and authentication paths","sphincs/utilsx1.c, utils.c"),("index derivation","sphincs/hash_shake.c, fors.c"),("chains and checksum","sphincs/wots.c")],["keys, signatures, verification results"])
prop("C14","The Ed25519 component follows RFC 8032 signing and strict verification",
 "Ed25519 key generation and signing return exactly the RFC 8032 key and signature for every seed and message length. Opening accepts precisely when the key decodes, the scalar part is below the group order and the recomputed commitment equals the encoded one, returns exactly the signed message, and on rejection reports failure for every other signature, key or length.",
 ["inputs"],"all message lengths over several hash blocks; signatures and keys at every encoding boundary (scalar around multiples of the order, non-canonical and low-order points, every flipped bit)",
 "Ed25519 is only exercised through hybrid round trips on random data.",
 ["tweetnacl/tweetnacl.c"],[("crypto_sign / crypto_sign_open","tweetnacl/tweetnacl.c"),("point decoding","tweetnacl/tweetnacl.c unpackneg"),("scalar reduction","tweetnacl/tweetnacl.c modL")],["keys, signatures, recovered message, return code"])
prop("C15","NaCl boxes, streams, authenticators and SHA-512 compute their defined values",
 "For every message length, key and nonce, SHA-512, Salsa20/XSalsa20 streams, Poly1305, Curve25519 scalar multiplication, secretbox and box return the values defined for them, and opening a box returns the original message. Opening rejects any altered ciphertext, tag, nonce or key and any ciphertext shorter than 32 bytes, without releasing plaintext.",
 ["inputs"],"all message lengths over several cipher, authenticator and hash blocks; every flipped bit of short boxes; boundary field elements and accumulator values",
 "No stable test calls these functions.",
 ["tweetnacl/tweetnacl.c"],[("crypto_stream/onetimeauth/secretbox/box/scalarmult/hash","tweetnacl/tweetnacl.c")],["output bytes, return code"])
prop("C16","Concurrent calls on separate data behave as if run one after another",
 "Threads calling any operations of the library at the same time on their own buffers (sharing at most read-only keys and messages) each get exactly the result the same call gives when run alone, under every interleaving; the library has no hidden shared mutable state and no data races.",
 ["schedules"],"all interleavings of two threads running any pair of operations, up to a bound on preemptions at function boundaries",
 "All tests are single threaded.",
 [H,"common/fips202.c","dilithium2","sphincs","tweetnacl/tweetnacl.c","random/randombytes.c"],[("all scratch state is local or heap allocated per call","all sources")],["results of each thread's calls"])
prop("C17","No call reads or writes outside its buffers or leaks memory",
 "For every input, valid or hostile, every function of the library reads only within the documented extent of its inputs, writes only within the documented extent of its outputs, performs no null or misaligned access, signed overflow or oversized shift, and frees all memory it allocates before returning (including on every failure path).",
 ["inputs","fault_sequences"],"all entry points crossed with all lengths, malformed encodings, tampered signatures and randomness failures",
 "The tests run without sanitizers or guard pages on well-formed buffers that are larger than needed.",
 [H,"dilithium2/packing.c","sphincs/sign.c","common/fips202.c","tweetnacl/tweetnacl.c"],[("length checks before access",H),("hint index bounds","dilithium2/packing.c"),("context release on all paths","dilithium2/sign.c, sphincs/hash_shake.c, common/shake_prng.c")],["memory accesses, allocation balance"])
prop("C18","The WebAssembly facade behaves exactly like the core interface",
 "Each function exported to WebAssembly returns the same code and output as the core operation it stands for (compact sign and verify, key generation, seed expansion, random bytes, SHAKE expansion) for all arguments, valid or not. Releasing facade memory erases all of the given bytes before handing the block back, and allocation yields a usable block of at least the requested size.",
 ["inputs"],"all facade functions over the argument classes of the core operations; all allocation sizes up to a bound",
 "The facade is not compiled by the build under test and has no test.",
 ["wasm/hybrid-pqc.c"],[("thin wrappers","wasm/hybrid-pqc.c"),("memset before free","wasm/hybrid-pqc.c mem_free")],["return code, outputs, freed memory content"])
prop("C19","Results depend only on arguments and OS randomness, not on earlier calls",
 "Whatever sequence of operations, successful or failed, came before in the same process, each call of the library returns the same code and bytes it returns in a fresh process for the same arguments and the same operating-system random bytes.",
 ["histories"],"all operation sequences up to a depth over an alphabet of every public operation with succeeding and failing arguments on colliding buffers",
 "Tests run each operation in one fixed order.",
 [H,"common/fips202.c","dilithium2/sign.c","sphincs/sign.c","tweetnacl/tweetnacl.c","common/shake_prng.c"],[("no static mutable state","all sources")],["return code and output bytes after each history"])
prop("C20","Signatures cannot be forged without the secret key",
 "No efficient adversary who sees signatures on messages of its choice can produce an accepted signature on another message, as long as at least one of the component schemes required by the mode remains unbroken.",
 ["inputs"],"all adversaries","Not a property of finitely many executions.",
 [H],[("hybrid composition",H)])
prop("C21","Secrets do not steer control flow or addresses outside the lattice and FTS parts",
 "For fixed public inputs and lengths, Ed25519 key generation and signing, Curve25519, box and secretbox (key, plaintext, position of a wrong tag byte), Poly1305, the stream cipher, the constant-time comparisons, SHA-2, SHA-3/SHAKE, both seed expanders, SPHINCS+ key generation, and the hybrid key generation and compact signing with respect to their Ed25519 and SPHINCS+ secrets execute the same sequence of program points and touch the same memory addresses for every value of the secret. (Dilithium, whose specified algorithm rejects on secret-dependent values, and SPHINCS+ signing, whose path is chosen by the message digest, are not part of this guarantee.)",
 ["inputs"],"all values of the secret bytes","Branches and table look-ups on secrets change no result, so no test sees them.",
 ["tweetnacl/tweetnacl.c","sphincs/sign.c",H],[("branch-free arithmetic and comparison","tweetnacl/tweetnacl.c, common/fips202.c")])
prop("C22","A failed memory allocation ends the process, it never yields a result",
 "Whenever an allocation made inside a library call fails (hash contexts, their clones, expander state), the process ends there with a failure status: no call returns, no result or signature is delivered, and nothing is read or written through the missing block. The facade's allocators report the failure as a null pointer.",
 ["inputs","fault_sequences"],"all operations crossed with all points at which an allocation can fail",
 "Allocations do not fail in tests.",
 ["common/fips202.c","wasm/hybrid-pqc.c"],[("exit(111) after each allocation","common/fips202.c")],["process exit status at each failed allocation"])
prop("C23","The 32-bit WebAssembly build gives the same results as the native build",
 "Compiled for 32-bit WebAssembly, every exported facade function and every hybrid, Dilithium, SPHINCS+, Ed25519, Curve25519, box and hash operation returns, for the same arguments and random bytes, the same code and output bytes as the native 64-bit build: what one accepts, refuses, signs or derives the other does too, including 64-bit lengths whose low 32 bits would be valid. It writes nothing outside the caller's buffers, releases every block it allocates, and raises no trap or JavaScript exception.",
 ["inputs","configurations"],"all operations over their argument classes, lengths at and beyond 32-bit boundaries, alignments, both JavaScript random sources and every point at which they run out",
 "The tests run only the native build; the WebAssembly product is released without any test.",
 ["wasm/hybrid-pqc.c",H,"tweetnacl/tweetnacl.c","common/fips202.c","random/randombytes.c"],[("64-bit lengths against 32-bit size_t","hybrid-dilithium-sphincs/hybrid.c"),("32-bit words declared as unsigned long","tweetnacl/tweetnacl.c")],["return code, output bytes, memory around every buffer"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
