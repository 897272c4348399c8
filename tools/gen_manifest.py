#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
N = {
'C01': ('exhaustive bounded enumeration of sign/open/verify executions on the real code against a reference model of the composition and of each component', 'All lengths 1..64 in both modes, covering arrays over every byte position and value of message, nonce and key seed; agreement is byte for byte. Trusts the reference implementations.'),
'C02': ('exhaustive enumeration of all part combinations (genuine, other key, other message, other nonce, other mode, corrupted) executed on the real open/verify against the acceptance model', 'Complete product of part origins; data values around fixed keys. Trusts the reference verifiers used to construct individually valid parts.'),
'C03': ('exhaustive enumeration of all single-bit alterations (every 32-byte node of SPHINCS+ parts) and all alternative encodings of valid signatures on the real code', 'Every bit of compact signatures, keys and messages; every byte of full signatures in thorough mode. Multi-bit alterations only where they are alternative encodings.'),
'C04': ('exhaustive enumeration of argument shapes (missing-pointer masks, all mode ids x length bytes x signed lengths, wrap boundaries) on the real code', 'Complete over the finite argument classes stated; every call runs between guard pages.'),
'C05': ('exhaustive enumeration of failing inputs and of randomness-failure points on the real code with all caller buffers monitored', 'Same spaces as C02-C04 and C07; buffers compared byte for byte before and after, inputs write-protected.'),
'C06': ('stateless exploration of all operating-system answer sequences (deviation-bounded) of each random backend under a fault-injecting environment', 'All answer sequences up to the deviation bound on eight configurations compiled from the same source (the Windows, BSD, WASI and JavaScript ones against declarations of those interfaces, the JavaScript text run in node); descriptor and handle accounting by interposition.'),
'C07': ('exhaustive fault-point enumeration of the random source over every randomised entry point, and of all short call sequences, on the real code', 'Every request index and byte offset of failure; freshness against the modelled OS byte tape.'),
'C08': ('exhaustive enumeration of seed positions/values against a reference key generator on the real code', 'Covering array over all 160 positions x 256 values, every single-bit change; the full 2^1280 space is not covered.'),
'C09': ('exhaustive enumeration of all 96 positions x 256 values around base seeds against the documented composition', 'Known finding: 32 ignored positions (listed); anything else is reported.'),
'C10': ('exhaustive enumeration of lengths and of all request sequences to a depth against a SHAKE-256 reference', 'Complete for seed/output lengths in the stated range and request sequences over boundary sizes.'),
'C11': ('explicit-state exploration of all absorb/finalize/squeeze/clone/release sequences to a depth on the real code against a Keccak reference', 'Complete to the stated depth over block-boundary sizes; all one-shot lengths over several blocks.'),
'C12': ('exhaustive enumeration of rule-violating signatures and of bounded message/key spaces on the real code against a reference Dilithium2', 'Signatures violating exactly one rule are constructed with the secret key; byte-exact signing comparison.'),
'C13': ('exhaustive coverage of leaf, few-time and chain indices on the real code against a reference SPHINCS+ verifier/signer', 'Every FORS index, chain digit and top/bottom leaf index is reached in thorough mode; trusts the reference.'),
'C14': ('exhaustive enumeration of lengths, bit flips, scalar and point encodings on the real code against a reference Ed25519', 'All message lengths to several blocks, all encoding boundary cases.'),
'C15': ('exhaustive enumeration of lengths, bit flips and boundary field values on the real code against reference NaCl primitives', 'All lengths over several blocks; boundary accumulator/field values.'),
'C16': ('stateless exploration of all two-thread interleavings (preemption-bounded) of the instrumented real code under a controlled scheduler, plus conflict detection over all operation pairs', 'Preemption bound 1 at function-entry/sync points plus full read/write-set conflict check of static memory; if no pair conflicts every interleaving is equivalent to a serial one.'),
'C17': ('exhaustive enumeration of the input and fault spaces of the other properties on an ASan+UBSan build with exact-size buffers and allocation balance', 'Sanitizers are the oracle; the enumerated spaces bound the claim. UBSan shift-base excluded.'),
'C18': ('exhaustive enumeration of facade arguments, each executed on facade and core side by side, and of allocation sizes', 'Facade compiled natively with a stub emscripten header, and for wasm32 run in node; differential oracle.'),
'C19': ('exhaustive exploration of all operation histories of length 2 (and 3 over a sub-alphabet) plus near-identical inputs and long repetitions, each from a fresh process image', 'Oracle is the result of the same operation in a fresh process.'),
'C21': ('exhaustive enumeration of executions over a set of secrets covering every byte position and value, comparing the complete basic-block and address trace of the instrumented real code (2-safety by enumeration)', 'Instrumented -O1 build; instruction timing and compiler effects of other optimisation levels are not modelled.'),
'C23': ('exhaustive enumeration of calls executed on the product compiled for wasm32 (run in node) and on the native build, compared code for code and byte for byte', 'clang -O1 with a minimal C library instead of Emscripten; a native trace is replayed on wasm32 for every case. Lengths are those of a 32-bit memory plus 64-bit lengths that narrow to valid ones.'),
'C22': ('exhaustive enumeration of allocation fault points: each operation re-executed once per failing allocation on the real code', 'Every allocation site with its first, second and last allocation, and the first 200 (4000 in thorough) allocations of every operation.'),
}
NA = {
'C20': 'Unforgeability quantifies over all efficient adversaries; it is a computational statement about the schemes, not about a finite set of executions, so no bounded exploration can decide it.',
}
m = dict(version=1, setup_cmd='python3 build.py',
         checks=[dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p, evidence_file='evidence/%s.json' % p, technique=t, level='model_checking', level_note=n) for p, (t, n) in N.items()],
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes='No hooks in /repo: the seams are link-time wraps of libc entry points and compiler instrumentation. Known and fixed defects: known-findings.json.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
