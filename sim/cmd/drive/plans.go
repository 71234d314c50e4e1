package main

import "time"

var real = []string{"all of package bls, g1pubs and g2pubs, built from /repo's working tree with a yield point before every statement (assembly unchanged)"}

var plans = map[string]plan{
	"C01": {Runs: 9000, Wall: 120 * time.Second, Race: 3,
		Rule: "one run is one set of 2 to 6 caller tasks with shared operands, executed in several rounds under seeded preemption at statement granularity; runs are distinct when their calls or their sequence of preemption points differ",
		Real: real, Stub: []string{"goroutine scheduler (seeded baton)", "package sync, channels, select and the clock (same ordering, simulated blocking and time), should the library use them"},
		Assume: []string{"goroutines are interleaved at statement boundaries, with operations of package sync as scheduling points; finer interleavings (inside a statement, or reordered by the memory model) are covered only by the race-detector runs of the same histories", "the assembly routines are atomic: they work on values in registers and on their own frame", "operations of the standard library (big.Int, sha256, sort) are atomic"}},
	"C02": {Runs: 6000, Wall: 140 * time.Second,
		Rule: "one run is one seeded history of exported calls over a pool of shared, aliased objects with failing calls in between; runs are distinct when their sequences of calls differ",
		Real: real, Stub: []string{"io.Reader sources of randomness", "crypto/rand's process-wide source (unused by the library)"},
		Assume: []string{"'in a fresh process' is decided by a new worker process that performs only the call in question", "objects are compared by value: two forms of one curve point are the same value"}},
	"C03": {Runs: 20000, Wall: 100 * time.Second, Race: 12,
		Rule: "one run is one set of generator histories on simulated sources with short, empty, delayed, failing, panicking and stalled reads, alone or concurrently; runs are distinct when their operations or preemption points differ",
		Real: real, Stub: []string{"io.Reader sources of randomness (simulated device)", "goroutine scheduler (seeded baton)"},
		Assume: []string{"a source is only read through io.Reader; crypto/rand.Int and io.ReadFull are the real ones", "the value belonging to a byte sequence is what the same generator returns on an undisturbed source delivering these bytes; that it lies in range and in the subgroup is decided by the independent model"}},
	"C04": {Runs: 6000, Wall: 80 * time.Second,
		Rule: "one run is one history of nodes storing and exchanging encoded values over faulty disks and links, with forged records mixed in; runs are distinct when their sequences of record formats, origins and flag bits differ",
		Real: real, Stub: []string{"disk (sectors behind a write-back cache)", "network (frames that can be altered)", "nodes and their crashes", "reference decoder (independent big-integer model) as the oracle"},
		Assume: []string{"the reference decoder (big-integer curve arithmetic, sim/ref) is correct; it shares no code with the library", "raw coordinates are restored only from intact bytes: SetRawBytes is an unchecked setter by its documentation"}},
	"C05": {Runs: 3000, Wall: 80 * time.Second,
		Rule: "one run is one gossip history of nodes combining, forwarding, saving and cancelling partial aggregates; runs are distinct when their sequences of aggregation calls and group sizes differ",
		Real: real, Stub: []string{"network", "nodes, their durable state and crashes", "reference point addition (independent big-integer model) as the oracle"},
		Assume: []string{"the reference addition (sim/ref) is correct; contributions are subgroup elements"}},
	"C06": {Runs: 1200, Wall: 100 * time.Second,
		Rule: "one run is one history of verifiers deciding claims that arrive over a faulty network with malicious participants; runs are distinct when their sequences of claim kinds, alterations and verdicts differ",
		Real: real, Stub: []string{"network", "signers, verifiers, attackers and their crashes", "goroutine scheduler (seeded baton)", "symbolic truth (discrete logarithms known to the simulator) as the oracle"},
		Assume: []string{"hash-to-curve values of different messages are independent unless equal, which the simulator checks for every message it meets; no participant can take discrete logarithms", "the reference addition (sim/ref) is correct"}},
	"C07": {Runs: 3000, Wall: 80 * time.Second,
		Rule: "one run is one history of hostile and honest requests to a node, before, between and at the same time; runs are distinct when their sequences of request kinds, list sizes and verdicts differ",
		Real: real, Stub: []string{"network peers", "goroutine scheduler (seeded baton)", "work meter (statements executed)"},
		Assume: []string{"work is counted in executed statements of the library; the standard library's and the assembly's own work per statement is bounded by its operands", "points that are not on the curve can only be made with the unchecked raw setter and are outside the statement"}},
	"C08": {Runs: 5000, Wall: 80 * time.Second,
		Rule:   "one run is one history of calls performed by a node that stays on the assembly build and by one that crashes and fails over between the three builds; runs are distinct when their calls or itineraries differ",
		Real:   append([]string{"the portable build of the same files (build tags of the other side), in the same process", "the library compiled for GOARCH=386, in a process of its own"}, real...),
		Stub:   []string{"nodes, their durable state, crashes and fail-over", "io.Reader sources of randomness"},
		Assume: []string{"the portable build is the set of files a non-amd64 or non-gc build selects, compiled for amd64 in the same process, and the real GOARCH=386 build in another one; ARM and big-endian machines are not available here"}},
}
