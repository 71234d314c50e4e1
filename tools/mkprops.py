#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

add("C01", "Concurrent callers sharing keys, messages and points do not interfere",
 "Any number of goroutines may at the same time sign, verify, hash, pair, encode, decode, derive keys, do field and curve arithmetic and build aggregates from the same keys, signatures, points, field elements, messages, lists and package constants, as long as none of them modifies an object another one is using. Every call then returns exactly what it returns when it runs alone, for every interleaving. At no moment does any goroutine see a shared input or a package constant with a different value, not even temporarily.",
 ["schedules", "inputs"],
 "For all interleavings, at statement granularity, of up to six caller goroutines running any mix of read-only library calls on shared operands; for all operand values.",
 "Every existing test is single-threaded, and -race only observes the interleaving that happened; a shared scratch value, a half-published cache or an argument negated in place and restored shows up only when another caller runs inside a particular window.",
 ["pairing.go", "hash.go", "g1.go", "g2.go", "fr.go", "fq12.go", "fq6.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [m("operands are copied before the in-place (…Assign) operations touch them", "pairing.go CompareTwoPairings/FinalExponentiation/MillerLoop; fq6.go, fq12.go, g1.go, g2.go"),
  m("results are freshly allocated; constants handed out through Copy", "g1pubs/bls.go NewAggregateSignature, AggregatePublicKeys; g1.go G1ProjectiveZero"),
  m("messages are copied before they are sorted", "g1pubs/bls.go, g2pubs/bls.go VerifyAggregate")],
 [s("package-level constants", "generators, zero/one elements, moduli, Frobenius and isogeny tables: shared by all callers, several are pointers", "g1.go, g2.go, fq*.go, fr.go, hash.go"),
  s("key/signature objects", "hold a pointer to a point or scalar shared by all their users", "g1pubs/bls.go, g2pubs/bls.go")],
 ["return values of every exported call", "serializations of the shared operands and constants taken by an observer goroutine"])

add("C02", "Results depend on operand values only, and calls change only their receiver",
 "The result of every call is determined by the values of its operands: not by which calls ran earlier in the process, by earlier failures, or by whether two operands are one object or equal copies. A call changes nothing but the object whose in-place operation it is: the other operands, copies taken earlier, values an object was built from or converted from, caller-owned message and key lists, hashers, and the package constants keep their values through every history of calls. This includes histories containing calls that return an error or panic and are recovered.",
 ["histories", "inputs"],
 "For all histories of exported calls over a shared pool of objects, with arbitrary operand aliasing, including failing and recovered calls.",
 "Unit tests build fresh values, make one call and look at its result; they neither reuse operands in long histories, nor pass one object twice, nor re-check the constants and the bystanders afterwards.",
 ["fr.go", "frrepr.go", "fq.go", "fq2.go", "fq6.go", "fq12.go", "g1.go", "g2.go", "pairing.go", "hash.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [m("value semantics of base field elements, explicit Copy of pointer-shaped values", "fq.go, fq2.go (values); fr.go, fq6.go, fq12.go, points (pointers)"),
  m("conversion of integers to field elements works on its own storage", "fr.go FRReprToFR"),
  m("aggregation starts from a copy of the identity", "g1pubs/bls.go, g2pubs/bls.go")],
 [s("package-level constants", "must never be reachable through a returned pointer that an in-place operation then modifies", "g1.go, g2.go, fr.go, fq6.go, fq12.go")],
 ["return values", "serializations of all live objects and constants after every call"])

add("C03", "Key and element generation is exact on unreliable randomness sources",
 "Every generator that draws from a caller-supplied random source (secret keys, field and extension-field elements, curve points) returns a value determined by the sequence of bytes the source delivered and by nothing else: splitting the bytes into short reads, delaying them, or interleaving empty reads changes neither the value nor the number of bytes consumed, and generated scalars are in range and generated points are non-identity members of the prime-order subgroup. When the source fails, ends or panics before enough bytes were delivered, the caller gets that failure and no value, and once the source works again generation succeeds. A source that stalls delays only the call reading from it, and a failed, stalled or panicking source leaves every other key, value and operation unaffected.",
 ["fault_sequences", "schedules", "inputs"],
 "For all byte streams, all ways to chunk, delay, fail, end or panic the source at any byte position, and all interleavings with other callers.",
 "The tests' source never fails and always fills the buffer; no test injects a short read, an empty read, an error, EOF, a panic or a stall.",
 ["fr.go", "fq.go", "fq2.go", "fq6.go", "fq12.go", "g1.go", "g2.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [m("rejection sampling over full reads, errors returned at every draw", "fr.go RandFR, fq.go RandFQ, fq2.go RandFQ2, fq6.go RandFQ6, fq12.go RandFQ12"),
  m("sign byte then x-coordinate, retry until on curve, cofactor clearing, non-identity test", "g1.go RandG1, g2.go RandG2"),
  m("error propagation to the key API", "g1pubs/bls.go, g2pubs/bls.go RandKey")],
 [], ["returned value and error", "bytes consumed from the simulated source", "results of concurrently running calls"])

add("C04", "Stored and transmitted encodings restore exactly or are refused",
 "A secret key, public key, signature, point or scalar that is serialized and restored, after any crash or on any node, equals the original, serializes to the same bytes, and behaves identically in every later operation. Bytes damaged in storage or transit (bit flips, torn, lost or misdirected writes, forged flags, non-canonical or off-curve or wrong-subgroup coordinates) are refused, or restore to precisely the valid prime-order-subgroup element whose serialization is those very bytes. Decoding never yields two different byte strings for one element, and a damaged secret key never yields a key that signs.",
 ["crash_points", "fault_sequences", "inputs"],
 "For all values, all crash points between and inside the writes of a record, and all corruptions of the stored or transmitted bytes.",
 "Tests round-trip a handful of random valid encodings and refuse one fixed invalid string; torn records, flag forgeries, coordinates at or above the modulus, small-order and wrong-subgroup points and special coordinates are never produced.",
 ["g1.go", "g2.go", "frrepr.go", "fqrepr.go", "fr.go", "fq.go", "fq2.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [m("flag checks, range of the coordinate, square root, choice of y, subgroup test", "g1.go DecompressG1/DecompressG1Unchecked/GetG1PointFromX; g2.go DecompressG2/DecompressG2Unchecked/GetG2PointFromX"),
  m("canonical compression", "g1.go CompressG1, g2.go CompressG2"),
  m("scalar range test on load", "fr.go FRReprToFR; g1pubs/bls.go, g2pubs/bls.go DeserializeSecretKey"),
  m("uncompressed form", "g1.go, g2.go SerializeBytes/SetRawBytes")],
 [s("encoded record", "48/96-byte compressed points with three flag bits, 96/192-byte raw points, 32-byte scalars", "simulated disk and network")],
 ["decoder results compared with an independent decoder", "behaviour of restored objects in later operations"])

add("C05", "Aggregates converge whatever the order, grouping, duplication or restarts",
 "Two nodes that have aggregated the same contributions with the same multiplicities hold signatures and public keys that compare equal, serialize to identical bytes and verify identically, whatever the order and grouping in which contributions and partial aggregates arrived, with crashes and restarts from serialized partial aggregates in between. The identity is neutral, a contribution and its inverse cancel to the identity, and adding a contribution again counts it again. Aggregating never alters the contributions, and once faults stop, all nodes reach the same aggregate within a bounded number of exchanges.",
 ["histories", "fault_sequences", "crash_points"],
 "For all delivery orders, duplications, losses, partitions, crash/restart points and groupings of contributions, in both schemes and all signing modes.",
 "Tests aggregate the same list once, in one order, without duplicates, cancellation, partial merges or restored intermediate state.",
 ["g1pubs/bls.go", "g2pubs/bls.go", "g1.go", "g2.go"],
 [m("point addition including equal, opposite and identity operands in any projective form", "g1.go, g2.go Add/AddAffine/Double"),
  m("fold from the identity", "g1pubs/bls.go, g2pubs/bls.go AggregateSignatures/AggregatePublicKeys/Aggregate"),
  m("equality across projective representations", "g1.go Equal, g2.go Equals")],
 [s("running aggregate", "projective point replaced on every Aggregate", "g1pubs/bls.go Signature.s, PublicKey.p")],
 ["serialized aggregates on every node, against the sum of the known scalars computed by an independent model"])

add("C06", "Verifiers on a faulty network accept exactly what the listed keys signed",
 "A verifier accepts a signature (single, common-message aggregate, or aggregate over different messages; with or without a domain; in either scheme) exactly when it is the sum of the signatures by precisely the listed public keys over precisely the listed messages and domain, the lists have equal length, and, for undomained aggregates over a list of messages, no message occurs twice. Loss, duplication, reordering, replay into other rounds, cross-delivery between messages, keys, domains or schemes, alteration of any byte, and malicious participants never make it accept anything else or reject an honest one. Once faults stop, every honest contribution and aggregate is accepted within a bounded number of retransmissions.",
 ["fault_sequences", "histories", "inputs"],
 "For all sequences of network faults and malicious contributions over multi-round histories with many signers, messages (any length and content), domains and schemes.",
 "Tests verify a few honest signatures plus one missing and one duplicated contribution; they never exchange fields between valid messages, replay across rounds and domains, flip bytes, reorder lists or use related keys.",
 ["g1pubs/bls.go", "g2pubs/bls.go", "pairing.go", "hash.go", "g1.go", "g2.go"],
 [m("pairing equation over the listed keys and hashed messages", "g1pubs/bls.go, g2pubs/bls.go Verify*, VerifyAggregate*; pairing.go CompareTwoPairings, Pairing"),
  m("hash to the curve binds message and domain", "hash.go HashG1/HashG2, g2.go HashG2WithDomain"),
  m("length and repeated-message tests", "g1pubs/bls.go, g2pubs/bls.go VerifyAggregate")],
 [], ["verdicts of all verification calls against a symbolic model of which key signed what"])

add("C07", "No received input makes a decoder or verifier panic or run unboundedly",
 "Whatever bytes a peer sends, decoding and every verification, aggregation, comparison and re-encoding call on what was decoded return a verdict, a value or an error after an amount of work linear in the input size, and never panic. This covers identity elements, keys or signatures that cancel, repeated keys and messages, empty messages, empty lists and lists of different lengths. A node that handled hostile input keeps serving honest requests correctly.",
 ["inputs", "fault_sequences", "histories"],
 "For all hostile byte strings and all combinations of decodable elements, empty or mismatched lists and messages, interleaved with honest traffic.",
 "Tests feed one undecodable key and otherwise only honest non-identity elements in non-empty lists of equal length.",
 ["g1pubs/bls.go", "g2pubs/bls.go", "pairing.go", "g1.go", "g2.go", "hash.go"],
 [m("identity handling in the Miller loop", "pairing.go MillerLoop, g2.go G2AffineToPrepared"),
  m("length tests before indexing", "g1pubs/bls.go, g2pubs/bls.go VerifyAggregate*"),
  m("bounded loops in inversion, rejection and try-and-increment", "fq.go Inverse, g2.go HashG2WithDomain"),
  m("error returns instead of unusable points", "g1.go, g2.go Decompress*")],
 [], ["panics recovered at the node boundary", "instrumented step counts per call", "verdicts on subsequent honest traffic"])

add("C08", "Assembly and portable builds are interchangeable within one deployment",
 "Nodes running the assembly build and nodes running the portable build, on 64-bit or 32-bit machines, produce byte-identical keys, signatures, aggregates, hashes, field and curve results and identical verdicts and errors for the same history of requests. State serialized by a node of one build and restored by a node of another, at any point of the history, continues the history as if it had stayed. No history, operand value or failover order lets the builds diverge.",
 ["configurations", "histories", "crash_points", "inputs"],
 "For all request histories, operand values (including limb-boundary patterns) and migration points over clusters mixing the amd64 assembly build, the portable code and the 32-bit build.",
 "Each build's tests run separately, against a few fixed vectors and the build itself; nothing ever compares the two or moves state between them, and carries at limb boundaries are not sampled.",
 ["stub.go", "primitivefuncs_amd64.s", "stub_fallback.go", "fq.go", "fr.go", "fqrepr.go"],
 [m("multi-precision primitives in assembly", "primitivefuncs_amd64.s, stub.go"),
  m("the same primitives in Go", "stub_fallback.go")],
 [], ["transcripts of the same history on every build", "state restored across builds"])

# ---- properties this technique does not decide (not_applicable in MANIFEST.json)
add("N01", "Field and extension-field arithmetic is exact for every operand",
 "Addition, subtraction, multiplication, squaring, inversion, exponentiation, Frobenius, square root and comparison on base, scalar and extension field elements equal the mathematical operation modulo the field's prime for every operand.",
 ["inputs"], "For all field elements.",
 "Random operands reach a carry pattern of probability 2^-64 never; only proof or directed analysis settles all 2^381 operands.",
 ["fq.go", "fr.go", "fq2.go", "fq6.go", "fq12.go", "fqrepr.go", "frrepr.go"], [m("Montgomery arithmetic", "fq.go, fr.go")])
add("N02", "Curve group law and scalar multiplication are exact for every point",
 "Addition, doubling, negation, scalar multiplication, cofactor clearing and the subgroup test compute the group operation for all points and scalars.",
 ["inputs"], "For all points and scalars.", "Tests use a few points.",
 ["g1.go", "g2.go"], [m("Jacobian formulas", "g1.go, g2.go")])
add("N03", "The pairing is bilinear and non-degenerate",
 "For all subgroup points and scalars the pairing of scaled points is the pairing raised to the product of the scalars, and it is one only if an input is the identity.",
 ["inputs"], "For all points and scalars.", "Tests check a single value.",
 ["pairing.go", "g2.go"], [m("Miller loop and final exponentiation", "pairing.go")])
add("N04", "Hash-to-curve matches the standard and lands in the subgroup for every message",
 "For every message the hash-to-curve functions return the point the referenced draft defines, and that point lies in the prime-order subgroup.",
 ["inputs"], "For all messages.", "One vector per group.",
 ["hash.go", "g2.go"], [m("simplified SWU, isogeny, cofactor clearing", "hash.go")])
add("N05", "Secret-dependent operations leak nothing through timing",
 "The time and memory-access pattern of signing and key operations do not depend on the secret key.",
 ["inputs"], "For all secret keys.", "Functional tests do not observe time; the code does not attempt constant time.",
 ["g1.go", "g2.go", "fr.go"], [m("none: branches on key bits", "g1.go MulFR")])
add("N06", "Signatures are unforgeable",
 "Nobody without the secret key can produce a signature that verifies, except with negligible probability.",
 ["programs"], "For all efficient adversaries.", "A computational assumption about the curve, not a property of executions.",
 ["g1pubs/bls.go", "g2pubs/bls.go"], [m("co-Diffie-Hellman assumption", "none")])
add("N07", "The committed assembly is the generator's output",
 "Running the assembly generator reproduces the committed assembly file.",
 ["programs"], "For the one generator program.", "The generator is never run by the tests and cannot run on the installed toolchain.",
 ["asm/asm.go", "primitivefuncs_amd64.s", "fqrepr.go"], [m("go:generate", "fqrepr.go")])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
