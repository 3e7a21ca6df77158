#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (harness/cmd/cXX)."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
T = {
 "C01": ("bounded-exhaustive exploration of message lengths, contents, codes and digest lengths against transcribed specifications", "Exhaustive over the enumerated message classes (all lengths to 12 blocks x 4 contents, all 1- and 2-byte messages, walking bits, counters past 2^32 bits); nothing outside them. Trusts the transcriptions, pinned to published vectors."),
 "C02": ("exhaustive operation-sequence exploration of live hash objects against a reference state machine", "All operation sequences to the stated depth over block-boundary lengths, every two-write split, every construction parameter class; longer histories are outside the bound."),
 "C03": ("bounded-exhaustive exploration of key x message lengths against RFC 2104", "All key lengths to 2 blocks x all message lengths to 3 blocks, content classes and call sequences."),
 "C04": ("bounded-exhaustive exploration of operand and scalar alphabets against the affine group law", "Exhaustive over boundary alphabets (all small multiples, order neighbourhood, negations, leading-zero coordinates, limb patterns); other operands are outside the bound. Trusts the big.Int reference."),
 "C05": ("bounded-exhaustive exploration of x coordinates and encodings against modular square roots", "Exhaustive over the x alphabet, prefixes and forms; other x are outside the bound."),
 "C06": ("bounded-exhaustive exploration of (key, hash, r, s) alphabets and all single-bit alterations against an independent verifier", "Exhaustive over the alphabet; other inputs outside the bound."),
 "C07": ("exploration of keys, hashes and nonce streams of the real signer under a scripted randomness source, against an independent verifier", "Exhaustive over the alphabet of keys, hashes and entropy streams."),
 "C08": ("bounded-exhaustive exploration of SM2 signing and verification against GB/T 32918.2", "Exhaustive over the alphabet of keys, identities, messages and alterations."),
 "C09": ("bounded-exhaustive exploration of SM2 ciphertexts and all single-byte faults against GB/T 32918.4", "Every plaintext length to the bound and every single-bit and truncation fault of the enumerated ciphertexts."),
 "C10": ("exhaustive exploration of the two-party protocol with an adversary that alters any one message or parameter, against GB/T 32918.3", "All single deviations from an honest run at every step, over the listed identities, lengths and ephemerals."),
 "C11": ("bounded-exhaustive exploration of keys, messages and alterations against the verification equations on big.Int edwards25519", "Exhaustive over the alphabet."),
 "C12": ("bounded-exhaustive exploration of points, scalars and encodings against big.Int edwards25519/curve25519", "Exhaustive over the alphabet, including all small-order points."),
 "C13": ("bounded-exhaustive exploration of keys, messages, aggregation orders and corruptions against independent BLS12-381 code", "Exhaustive over the alphabet; pairing reference is phoreproject/bls."),
 "C14": ("bounded-exhaustive exploration of points, scalars and encodings of BLS12-381 against independent code", "Exhaustive over the alphabet."),
 "C15": ("bounded-exhaustive exploration of Mina keys, messages, nonces and alterations against an independent Schnorr/Poseidon implementation", "Exhaustive over the alphabet."),
 "C16": ("bounded-exhaustive exploration of limb-pattern operands and sponge operation sequences against big.Int arithmetic", "Exhaustive over limb alphabets and update splits."),
 "C17": ("exhaustive exploration of operation x algorithm code x argument class", "Exhaustive over the argument classes and the code alphabet."),
 "C18": ("exhaustive exploration of operation x malformed argument class under panic and hang monitors", "Exhaustive over the argument classes."),
 "C19": ("exhaustive exploration of operation x aliasing layout with canary memory", "Exhaustive over operations, buffer layouts and overwrite points."),
 "C20": ("exhaustive exploration of call histories to a bounded depth, compared with fresh-process results", "All histories to the depth over the operation alphabet."),
 "C21": ("stateless model checking of goroutine interleavings: every schedule to a preemption bound under a controlled scheduler over the instrumented code, plus every ordered and unordered pair of calls with a happens-before race monitor", "All schedules to the preemption bound at the instrumented shared accesses and synchronisation points; every pair of calls over the alphabet, in a binary where the race detector judges happens-before."),
 "C22": ("exhaustive exploration of the entropy environment (every failing read, short reads, every influencing byte)", "All entropy answers in the alphabet for every randomised operation."),
 "C23": ("exhaustive exploration of the product of builds (portable, without ADX/BMI2, 32-bit, 32-bit portable) and the bounded spaces of the other checks, against the same references", "Every build times the listed spaces at their quick bounds (the quick tier leaves out spaces that are slow on 32 bits); big-endian and arm64 builds cannot run here."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"harness/cmd/{i.lower()}/main.go"):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Checks build the library from /repo's working tree through a replace directive in harness/go.mod."},
          open("MANIFEST.json", "w"), indent=1)
