#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded scheduler over real library code at every memory access, sync and library call, with adversarial heap reuse"
S = "deterministic simulation: seeded interleaved client histories over real library code with fault injection, against an executable reference model"
NOTE_T = "Seeded search over schedules of 2-4 simulated threads, preempted at instrumented accesses, atomics, locks and library calls; happens-before race detector, poisoned and reused heap, deadlock and progress detection. Not exhaustive; trusts FLINT/GMP and the const-ness of their prototypes."
NOTE_S = "Seeded search over histories of operations, refinements, failures and I/O faults; every result is compared with a GMP-only reference model. Not exhaustive; trusts FLINT/GMP for what both sides share, and the generator's input distribution."
NA = {
 "C17": "real-root isolation is a pure function of one polynomial: no schedule, time, I/O, randomness or history it could depend on; simulation would only be input fuzzing (the isolation that enumerating embeddings and creating fields rely on is exercised by C10, over histories of field creations)",
 "C18": "accepting or rejecting one text is a pure function of the text; what histories, failing streams and reused target variables do to the parser is covered by C13 and C14",
 "C20": "SageMath is not installed and cannot be fetched, so its conversions cannot run here; the realalg conversion is a pure function of one element, with no schedule, time, I/O, randomness or history it could depend on",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p in NA: continue
    if p == "C16" and not os.path.exists(V + "/sim/check_py.py"):
        NA[p] = "not built yet"; continue
    t = p in ("C01", "C02", "C03")
    tech, note = (T, NOTE_T) if t else (S, NOTE_S)
    if p == "C16": tech, note = ("deterministic simulation: seeded histories of Python clients with injected garbage collections, interpreter restarts and torn pickles", "Seeded search over histories of operations in real CPython/cppyy processes over the library built from /repo. Not exhaustive; trusts CPython, cppyy and FLINT.")
    checks.append({"property": p, "quick_cmd": "python3 sim/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py " + p, "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 sim/build.py simT simSeq", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "No hooks in /repo: all seams are put in at build time (compiler instrumentation and symbol redirection). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
