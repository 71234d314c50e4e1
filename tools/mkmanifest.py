#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": (T + "caller tasks under a seeded statement-level scheduler on shared objects, plus the same runs under the race detector",
   "Sampled interleavings of 2-6 callers (seeded, replayable). Each result is compared with the same call alone in a fresh process; observers compare shared operands and constants at every preemption of theirs. Trusted: the instrumenter (yield before every statement; one statement and the assembly are atomic, the race-detector build covers accesses inside a statement), the encoders of the adapter."),
 "C02": (T + "seeded call histories over shared, aliased objects with failing calls injected, each result re-evaluated in a fresh process",
   "Sampled histories. The oracle is the library itself on equal fresh operands in a process that did nothing else, and unchanged values of every other reachable object after every call; it does not judge whether a result is mathematically right (N01-N04)."),
 "C03": (T + "simulated random-source device with short, empty, delayed, failing, panicking and stalled reads; generators alone and concurrently",
   "Sampled source behaviours. The value for a byte stream is defined by the same generator on a fault-free source in a fresh process; subgroup membership, range, byte consumption and error propagation are judged independently."),
 "C04": (T + "nodes storing and exchanging encodings over a simulated disk and network with damage, against an independent big-integer decoder",
   "Sampled histories of writes, crashes, torn/lost/misdirected writes, bit rot, forged records. Trusted: the reference model of curve, flags and subgroup (sim/ref). Raw (uncompressed) points are unvalidated setters by design and judged on intact round trips only."),
 "C05": (T + "gossiping aggregators with crashes and restarts from serialized partial aggregates on a faulty network, against sums computed by an independent model",
   "Sampled gossip histories with up to dozens of contributions; sums of points with known discrete logarithms from the reference model; liveness as convergence within a bounded number of exchanges once faults stop."),
 "C06": (T + "verifiers on a faulty network with malicious participants, against symbolic truth from discrete logarithms known to the simulator",
   "Sampled claims in every verification call of both schemes. Truth is computed from who signed what (exponents), with the hash point taken from the library (its conformity is N04) and required to be different for different messages. Rejection is decided up to the negligible probability of a coincidence."),
 "C07": (T + "a node receiving hostile frames before, between and at the same time as honest ones, panics and work (executed statements) metered per call",
   "Sampled frames. Work is counted in executed library statements, against 4x the honest cost per element and against growth between two sizes of the same request; statements inside the Go standard library and the assembly are not counted."),
 "C08": (T + "one history on a node that stays on the assembly build and on nodes that crash and fail over between the assembly, portable and 32-bit builds",
   "Sampled histories and itineraries; transcripts must be identical call by call and the final durable states equal. Trusted: build-tag rewriting for the in-process portable copy; the 32-bit build is compiled and executed natively."),
}
na = {
 "N01": "A pure function of its operands: no schedule, clock, I/O, fault or party for it to depend on. (C01, C02, C08 still run this code on extreme operands, but compare builds and histories, not with mathematics.)",
 "N02": "A pure function of its operands, as N01. (C04-C06 compare the points they need with an independent model as part of their oracle.)",
 "N03": "A pure function of its operands, as N01. (C06 depends on it and would expose gross failures.)",
 "N04": "A pure function of the message; conformity with a written standard is decided by vectors or proof, not by faults or schedules.",
 "N05": "Timing and cache behaviour of the real machine are exactly what a simulator removes.",
 "N06": "A computational hardness assumption, not decidable by executing the code.",
 "N07": "A relation between two committed files; no execution of the library is involved, and the generator's module dependencies are not available offline.",
}
m = {
 "version": 1,
 "setup_cmd": "bash /verif/build.sh",
 "hooks": {"guard": "none in the source: the simulator instruments copies of /repo's files at build time (go build -overlay), the repository itself carries no hook",
           "enable": "bash /verif/build.sh", "source_commits": []},
 "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "Every check rebuilds the simulator from /repo's working tree. check.sh ID --replay FILE repeats a reported violation.",
}
for k, (t, n) in checks.items():
    m["checks"].append({"property": k, "quick_cmd": f"bash /verif/check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {k}",
                        "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
