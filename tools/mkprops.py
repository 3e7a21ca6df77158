#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files[:6])} for m in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","One-shot hashes compute their published functions for every input",
 "For every message of every length, each hash the library offers through its one-shot entry points returns exactly the digest its published specification defines (MD4, MD5, SHA-1, SHA-256, double SHA-256, SHA-512, RIPEMD-160, HASH160, SHA3-256/512, Keccak-256/512, Keccak-256 and SHA3-256 followed by RIPEMD-160, BLAKE-256/512, BLAKE2b, BLAKE2s, SM3, and the SHA-3/SHAKE and SM3 one-shot helpers). BLAKE2b and BLAKE2s honour the requested digest length from 1 to 64 and from 1 to 32 bytes and yield no digest for a larger one, and an unknown algorithm yields no digest.",
 ["inputs"],"all message lengths around every padding/block boundary, all byte positions, all digest lengths, all algorithm codes",
 "the suite hashes one puzzle string; padding, counters and block loops change behaviour at lengths no test uses",
 ["hashset.go","sm3/sm3.go","sha3/sha3.go","sha3/hashes.go","sha3/shake.go","sha3/keccakf.go","sha3/xor_unaligned.go","blake256/blake256.go","blake256/blake256block.go","blake512/blake512.go","blake512/blake512block.go","blake2s/blake2s.go","blake2s/block.go"],
 ["Hash dispatch","padding and length encoding of each hash","compression functions"],["Hash","sm3.Sm3Sum","sha3.Sum256","blake2s.Sum256"])
p("C02","Streaming hash objects depend only on the bytes written",
 "For every sequence of Write, Sum and Reset calls on a hash object (and Write, Read, Clone and Reset calls on a SHAKE object), Sum appends to its argument the digest of exactly the bytes written since creation or the last Reset, and neither Sum nor Clone disturbs the running computation; SHAKE reads return consecutive bytes of the specified output stream. How the message is split over calls, how often Sum was taken in between, and key, salt, personalisation or tree parameters given at construction never change anything but what the specification says they change.",
 ["histories","inputs"],"every operation sequence up to a bounded depth over write sizes chosen around the block size, for every hash object and construction parameter",
 "no test drives a hash object incrementally; buffer offsets depend on the history of calls",
 ["sm3/sm3.go","sha3/sha3.go","sha3/shake.go","blake256/blake256.go","blake512/blake512.go","blake2s/blake2s.go"],
 ["partial block buffering","finalisation on a copy","reset of the keyed and salted state"],["hash.Hash and ShakeHash method results"],
 [{"name":"buffer offset","meaning":"bytes of the current block already filled"},{"name":"byte counter","meaning":"message length so far"}])
p("C03","HMAC equals RFC 2104 for every key and message",
 "For every key and every message of any length, the keyed-hash entry point returns HMAC as defined by RFC 2104 over SHA-256, SHA-512 or SM3, including empty keys and keys at, below and above the hash's block size. An unknown algorithm code yields no result.",
 ["inputs"],"all key lengths and message lengths across block boundaries",
 "no test covers HMAC; the key is treated differently on each side of the block size, and correctness also needs the underlying hash objects to be reusable after Reset and Sum",
 ["hashset.go","sm3/sm3.go"],["key padding and hashing","inner/outer reuse of hash objects"],["Hmac"])
p("C04","Curve point operations compute the group law on k1, r1 and SM2",
 "For every pair of valid points and every scalar, key generation, base-point multiplication, scalar multiplication, multiply-and-add and point addition on secp256k1, secp256r1 and SM2 return exactly the result of the elliptic-curve group law - including doubling, inverse points, zero, order-sized and larger scalars, and results whose coordinates have leading zero bytes. A result at infinity is reported as such and never as coordinates, and an operand that is not a canonically encoded point of the curve is refused; the curve orders reported are the true orders.",
 ["inputs","histories"],"all reachable pairs of small and near-order multiples of the base point, all boundary scalars, and invalid encodings",
 "the tests multiply a handful of values; exceptional cases of the addition formulas and carry chains occur on specific operands only",
 ["ecdsa.go","eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","curve.go"],["Jacobian addition and doubling","SM2 limb arithmetic and reduction","windowed multiplication","operand validation"],["GenPubkey","Point_mulBaseG","Point_mulBaseG_add","Point_add","Point_mul","GetCurveOrder"])
p("C05","Point compression round-trips and only canonical points decompress",
 "For every point of secp256k1, secp256r1, SM2 and Pallas, decompressing its compressed form returns the point in 0x04-prefixed form, whichever accepted form it was compressed from. Decompression returns a point exactly when the prefix is 0x02 or 0x03, the x coordinate is below the field prime and on the curve, and then the point returned has that x and the y parity the prefix states.",
 ["inputs"],"all x coordinates in bounded ranges near zero, near the prime and at limb boundaries, both parities, all prefixes and lengths",
 "the tests never decompress a non-residue or an out-of-range x",
 ["eccset.go","secp256k1.go","secp256r1.go","sm2_std.go","pasta/crypto.go","pasta/pasta_fp.go"],["square root in each field","parity selection","range check"],["PointCompress","PointDecompress"])
p("C06","ECDSA verification accepts exactly the valid signatures",
 "On secp256k1 and secp256r1, verification of any 32-byte hash, public key and 64-byte signature succeeds if and only if the public key is a valid point, r and s are in [1, n-1] and the ECDSA equation holds; every altered hash, key or signature that does not satisfy the equation is rejected. Signatures made by an independent implementation verify.",
 ["inputs"],"all boundary values of r, s and the hash, all single-byte and algebraic mutations of valid triples, all malformed lengths",
 "tests verify signatures the library itself just produced and never a wrong one",
 ["utils.go","ecdsa.go","eccset.go"],["range checks on r and s","verification equation","infinity and x mod n handling","public key validation"],["Verify"])
p("C07","ECDSA signing is valid, canonical, and recoverable to the signer",
 "For every private key in [1, n-1] and every 32-byte hash, secp256k1 and secp256r1 signing returns a signature that an independent verifier accepts, with low s, r and s free of sign bits and needless leading zeros, and a v such that public-key recovery from r || s || v returns the signer's public key. Recovery succeeds only with a key under which the signature verifies and whose nonce point has the parity v states, and reports failure for everything else; SM2 recovery gives the signer's key from an SM2 signature over the hash.",
 ["inputs","histories"],"all boundary keys and hashes, many entropy streams, both values of v, and mutated or degenerate r, s, v",
 "a run of the suite sees a few random signatures; v flips when s is negated, and retries depend on r and s",
 ["utils.go","ecdsa.go","secp256k1.go","secp256r1.go","sm2_std.go"],["nonce retry loop","low-s normalisation and v","public-key recovery"],["Signature","RecoverPubkey"])
p("C08","SM2 signatures conform to GB/T 32918.2 and verify exactly when valid",
 "For every key in [1, n-2], identity and 32-byte message, an SM2 signature produced by the library is accepted by an independent GB/T 32918.2 verifier with the identity bound in (or with the message used directly as digest when no identity is given), and the library accepts a signature if and only if that verifier does. A signature under one identity, message or key is rejected under any other, and identities of 8192 bytes or more are refused.",
 ["inputs"],"all identity lengths across encoding boundaries, boundary keys and messages, all boundary r and s, all single-byte mutations",
 "tests sign and verify with the same code, so a wrong identity hash or a missing range check cancels out",
 ["sm2_std.go","ecdsa.go","sm3/sm3.go"],["identity hash Z","signature equation","range and r+s checks"],["Signature","Verify"])
p("C09","SM2 encryption round-trips, interoperates and rejects tampering",
 "For every key pair and every non-empty plaintext of any length, decryption returns exactly the encrypted plaintext, an independent GB/T 32918.4 implementation can read the library's ciphertexts, and the library reads that implementation's. Any ciphertext changed in any byte, truncated or extended, or with an off-curve or malformed point, is rejected without releasing plaintext.",
 ["inputs","fault_sequences"],"all plaintext lengths across key-stream blocks, all single-byte corruptions, truncations and extensions",
 "no test encrypts; a skipped integrity check or a key stream wrong in its last block passes round trips of short texts",
 ["sm2_std.go","ecdsa.go","eccset.go"],["key derivation stream","integrity hash C3","C1 point validation"],["Encryption","Decryption"])
p("C10","SM2 key agreement yields one shared key only to confirmed peers",
 "For all key pairs, identities, ephemeral values and key lengths, an honest run gives initiator and responder the same key - the one GB/T 32918.3 defines, of exactly the requested number of bytes - and both confirmations pass. If any message, identity, public key or confirmation value seen by one side differs from what the other side used, or a public value is not a valid point, the initiator's second step or the responder's second step fails and releases no key.",
 ["histories","inputs","fault_sequences"],"all protocol runs of two parties with an adversary that may substitute, replay, reflect or corrupt each message once, and all key lengths in a bounded range",
 "no test runs the protocol; the guarantee is about every interleaving and substitution of messages",
 ["sm2_std.go","eccset.go"],["implicit signature and shared point","key derivation","confirmation hashes S1, S2, SA, SB"],["KeyAgreement_* results"],
 [{"name":"session","meaning":"ephemeral key pairs, identities, confirmations exchanged"}])
p("C11","Ed25519-family signatures are complete, sound and non-malleable",
 "For every private key and message, signatures of the Ed25519 (RFC 8032), raw-scalar Ed25519, X25519-key and Curve25519-SHA256 schemes verify under the matching public key, and standard Ed25519 keys and signatures are byte-identical to RFC 8032. A signature verifies if and only if the scheme's verification equation holds with a canonical scalar and a decodable key: any other message, key or altered signature, including S increased by the group order, is rejected.",
 ["inputs"],"all message lengths across block boundaries, boundary and unclamped private keys, all single-bit mutations of signatures, keys and messages, all S + kL variants",
 "tests check a single vector per scheme and never a negative one",
 ["eddsa/curve25519.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","eddsa/edwards25519/edwards25519.go"],["scalar reduction and multiply-add","double-scalar multiplication","point decoding","sign-bit transport in X25519 signatures"],["Signature","Verify"])
p("C12","Curve25519 keys, conversions and Ed25519 point operations are correct",
 "For every scalar and every point, Ed25519-family public keys, base multiplication, multiply-and-add and point addition equal the edwards25519 group law, with the identity reported as infinity and undecodable operands refused. The two public-key conversions implement the birational map between edwards25519 and curve25519, invert each other up to the sign of x, commute with key generation, and reject non-canonical Montgomery input.",
 ["inputs"],"all small and near-order multiples, scalars at every bit boundary, all small field elements and those near the prime, all low-order points",
 "tests cover one conversion and one addition",
 ["eddsa/convert.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","eddsa/edwards25519/edwards25519.go","eccset.go"],["field arithmetic carries","fixed-base table multiplication","birational map"],["GenPubkey","Point_mulBaseG","Point_mulBaseG_add","Point_add","CURVE25519_convert_*"])
p("C13","BLS signatures verify exactly when genuine, alone and aggregated",
 "For every private key in [1, r-1] and every message, a BLS signature (basic or augmented scheme) equals the private key times the RFC 9380 hash of the scheme's input to G2, verifies under the matching public key, and fails under any other message, key or scheme, or after any corruption; the aggregate of signatures is their group sum regardless of order and grouping. Public keys or signatures that are malformed, outside the prime-order subgroup, or the identity key are rejected.",
 ["inputs","histories"],"all small sets of keys and messages, boundary keys, all byte corruptions, all permutations and groupings of aggregates, non-subgroup points",
 "tests verify a few fixed signatures; soundness and order independence quantify over all inputs",
 ["bls12_381/bls12-381.go","bls12_381/g1.go","bls12_381/g2.go","bls12_381/bls/hash_to_field.go","bls12_381/bls/swu.go","bls12_381/bls/isogeny.go","bls12_381/bls/g2.go","bls12_381/bls/pairing.go","eccset.go"],["hash to curve","subgroup checks on decoding","pairing check","aggregation"],["Signature","Verify","AggregateSignatures"])
p("C14","BLS12-381 groups, pairing and encodings obey their algebra",
 "For all points and scalars, the G1, G2 and GT operations of the BLS12-381 package satisfy the group laws and agree with an independent implementation, the pairing is bilinear and non-degenerate, and the pairing-equality check holds exactly when the two pairings are equal. Encoding then decoding returns the same point, decoding accepts exactly the canonical encodings of subgroup points, and public-key generation and multiply-and-add agree with the group law and report infinity.",
 ["inputs","histories"],"all combinations of small and near-order multiples including identity, inverse and equal operands, aliased receivers, all flag bits, coordinates at and above the prime",
 "tests only exercise pairing indirectly on a few signatures",
 ["bls12_381/g1.go","bls12_381/g2.go","bls12_381/gt.go","bls12_381/group.go","bls12_381/scalar.go","bls12_381/bls12-381.go","bls12_381/bls/g1.go","bls12_381/bls/g2.go","bls12_381/bls/fp.go","bls12_381/bls/fp2.go","bls12_381/bls/fp6.go","bls12_381/bls/fp12.go","bls12_381/bls/pairing.go","bls12_381/bls/field_element.go"],["field towers","point addition exceptional cases","Miller loop and final exponentiation","compressed encoding flags"],["OwcryptG1/OwcryptG2/OwcryptGT","NewBLS12381Suite","bls package API"])
p("C15","Mina signatures verify exactly when genuine",
 "For every Pallas private key in [1, q-1] and every well-formed Mina message, signing yields a signature accepted by verification under the matching public key and by an independent implementation of Mina's Schnorr scheme. Verification accepts a signature if and only if that implementation does: any other key, message field, nonce parity or non-canonical r or s is rejected, as are malformed messages and keys.",
 ["inputs"],"messages with all small numbers of prefix and suffix fields, boundary keys, all byte corruptions, non-canonical r and s",
 "tests verify a fixed transaction and one fresh signature",
 ["pasta/pasta.go","pasta/mina.go","pasta/poseidon.go","pasta/poseidon_3w.go","pasta/crypto.go","eccset.go"],["nonce parity normalisation","Poseidon message hash","canonical field checks"],["Signature","Verify"])
p("C16","Pasta fields, Pallas point operations and Poseidon are correct",
 "For all operands, the Pallas base and scalar field operations (add, subtract, multiply, square, negate, invert, square root, conversions) agree with arithmetic modulo the two primes, and Pallas key generation, point addition, multiplication and multiply-and-add equal the group law with infinity reported and invalid points refused. The Poseidon sponge returns the same digest as an independent permutation for every number of absorbed elements and every split of them over updates.",
 ["inputs","histories"],"all pairs of boundary field elements, small and near-order scalars, exceptional point pairs, all absorb sequences up to a bound",
 "the tests evaluate a single digest and one signature",
 ["pasta/pasta_fp.go","pasta/pasta_fq.go","pasta/crypto.go","pasta/pasta.go","pasta/poseidon.go","pasta/poseidon_3w.go","pasta/utils.go","pasta/const.go"],["Montgomery arithmetic","Jacobian formulas with exceptional cases","sponge absorb counter"],["pasta package API","Point_add","Point_mul","Point_mulBaseG_add"])
p("C17","Only valid keys and known types are served, with the documented codes",
 "For every algorithm code and every private key, key generation and signing succeed exactly when the code is supported and the key is in that algorithm's domain, and then report SUCCESS with outputs of the documented sizes; otherwise they return no output together with the documented failure code (illegal private key, wrong type, illegal message, illegal public key or generic failure). The same holds for verification, encryption, decryption, key agreement, recovery, aggregation, compression and point operations: an unsupported code or malformed argument is always refused and never served by another algorithm.",
 ["inputs","configurations"],"the full product of entry points, all supported and neighbouring algorithm codes, and key values and lengths around every domain boundary",
 "tests call each entry point with one good key and one type",
 ["eccset.go","ecdsa.go","profile.go","hashset.go","eddsa/ed25519.go","bls12_381/bls12-381.go","pasta/pasta.go"],["type dispatch","private key domain checks","error-to-code mapping"],["return codes and outputs of every exported function of the root package"])
p("C18","No input makes any entry point panic or hang",
 "For every combination of arguments - nil, empty, short, long or malformed byte strings, every algorithm code, every requested length - each exported entry point of the root package returns normally instead of panicking or looping forever. Data received from outside (signatures, public keys, points, ciphertexts, messages, confirmations) can therefore never crash the caller.",
 ["inputs","configurations"],"the product of entry points, algorithm codes, argument lengths 0 to past the expected size, and byte patterns including valid prefixes and degenerate field values",
 "tests pass only well-formed arguments",
 ["eccset.go","ecdsa.go","sm2_std.go","secp256k1.go","secp256r1.go","utils.go","hashset.go","eddsa/ed25519.go","eddsa/x25519.go","eddsa/curve25519_sha256.go","bls12_381/bls12-381.go","pasta/pasta.go","pasta/crypto.go"],["length checks before slicing","nil results of big-integer inverses and square roots","termination of retry loops"],["normal return of every entry point"])
p("C19","Entry points never modify or alias the caller's memory",
 "No call changes any byte of its arguments, or of the backing array before or behind them when an argument is a slice of a larger buffer, and the result does not depend on such spare capacity. Returned slices are fresh: overwriting a result, or an argument after the call, changes no other result, argument or later call.",
 ["inputs","histories"],"every entry point and algorithm code with every argument placed in buffers with all combinations of exact and spare capacity, overlapping arguments, and results overwritten between calls",
 "tests pass freshly allocated exact-size slices and look at results once",
 ["eccset.go","ecdsa.go","eddsa/curve25519_sha256.go","eddsa/x25519.go","bls12_381/bls12-381.go","pasta/pasta.go","pasta/utils.go","sm2_std.go","hashset.go"],["append on caller slices","in-place reversal and clamping","results that share storage with inputs or globals"],["argument buffers and results of every entry point"])
p("C20","Results do not depend on the history of calls",
 "Every deterministic operation (hashing, key generation, verification, decryption, point and conversion operations, deterministic signatures, key agreement with given ephemerals) returns the same result after any sequence of other successful or failing calls as it does in a fresh process, and randomised operations return the same result for the same entropy. In particular no call changes curve parameters, tables, constants or other state used by later calls.",
 ["histories"],"all ordered pairs and bounded-depth sequences of operations over all entry points and algorithm codes, including failing calls",
 "tests run each operation in one fixed order; state leaks show only for particular sequences",
 ["curve.go","init.go","secp256k1.go","sm2_std.go","ecdsa.go","eddsa/edwards25519/const.go","bls12_381/bls/pairing.go","pasta/const.go","pasta/poseidon.go"],["package-level curve parameters, tables and constants","big integers returned by reference"],["results of every entry point"],
 [{"name":"package-level state","meaning":"curve parameters, base points, tables, constants"}])
p("C21","Entry points are safe and exact under concurrent use",
 "When any entry points run concurrently on several goroutines with separate arguments, each call returns exactly what it returns when run alone, under every interleaving, including the very first calls of a process; no data race occurs. Concurrent use of independent hash objects likewise never mixes their states.",
 ["schedules"],"all interleavings up to a preemption bound of pairs of operations at accesses to shared mutable package state, and all pairs of entry points under the race detector",
 "tests are sequential; a shared scratch buffer or lazily built table fails only under particular schedules",
 ["curve.go","init.go","secp256k1.go","sm2_std.go","eccset.go","hashset.go","bls12_381/bls12-381.go","pasta/pasta.go","eddsa/ed25519.go"],["package-level state","one-time initialisation"],["results of concurrent calls"])
p("C22","Randomised operations draw fresh entropy and never reuse a nonce",
 "Every randomised operation (ECDSA, SM2, raw Ed25519, X25519 and Mina signing, SM2 encryption and key-agreement ephemerals) draws its nonce from the system randomness source on every call: each byte of entropy it consumes influences the nonce, at least 128 bits are consumed, and different entropy gives different nonces over the whole range. ECDSA, SM2 and raw Ed25519-family nonces also differ for different messages even if the source repeats itself, a source that returns short reads changes nothing, and a failing source never yields a signature or ciphertext.",
 ["fault_sequences","inputs"],"all scripted entropy streams: constant, repeating, each consumed byte flipped, short reads of every size, failure at every read",
 "tests run on the real random source and cannot see where a nonce came from",
 ["utils.go","sm2_std.go","eddsa/ed25519.go","eddsa/x25519.go","pasta/pasta.go"],["entropy reads","nonce derivation","retry on zero or out-of-range nonces"],["nonce commitments r, R, C1 and ephemeral public keys"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
