#!/usr/bin/env python3
"""check.py PROPERTY: seeded simulation search for one property. See DESIGN.md.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
S = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(S)
sys.path.insert(0, S)
import build as B

# property: (simulator, quick seconds, minimum runs, thorough seconds)
PROPS = {
 "C01": ("simT", 55, 6000, 1200), "C02": ("simT", 55, 6000, 1200), "C03": ("simT", 60, 6000, 1200),
}
for p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19"): PROPS[p] = ("simSeq", 60, 4000, 1200)
FAULTS = "preemption spurious_cas_failure bad_alloc forced_refinement enclosure_degraded callback_exception callback_reentrancy rejected_input short_read unexpected_eof read_error torn_archive write_error lost_write restart address_reuse second_archive_open stream_format_and_locale immutable_stop thread_stall adversarial_drop_order garbage_bytes lock_contention".split()
REAL_T = ["libeantic C library (all of libeantic/src)", "libeanticxx (libeantic/srcxx)", "e-antic headers incl. boost::intrusive_ptr", "FLINT, Arb, Antic, GMP (real, uninstrumented; calls are scheduling points)", "C++ standard library"]
REAL_S = REAL_T + ["cereal archives (headers, instrumented)"]
STUB_T = ["pthread mutex/rwlock/once, local static guards and thread scheduling (simulated, one thread runs at a time)", "malloc/free/operator new (simulated heap with reuse policy, poison and redzones)", "assert/abort/terminate (recorded instead of ending the process)", "mailboxes between threads (simulator)"]
STUB_S = ["malloc/free/operator new (simulated heap, injectable std::bad_alloc)", "archive files and text streams (simulated stream buffers with short reads, errors, truncation)", "process restart (a new process in which only the written archive bytes survive)", "assert/abort/terminate (recorded instead of ending the process)", "user refinement callbacks (simulator)"]

def fail(msg):
    print("CHECK-ERROR: " + msg, flush=True); sys.exit(2)

def known_findings():
    out = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s*property=(\S+)\s+kind=(\S+)\s+text=(.*)$", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop == "C16":
        import check_py; return check_py.main(tier, seed, t0)
    sim, secs, minruns, thorough = PROPS[prop]
    if tier == "thorough": secs = int(os.environ.get("VERIF_SECONDS", thorough))
    elif os.environ.get("VERIF_SECONDS"): secs = int(os.environ["VERIF_SECONDS"]); minruns = 0
    try: exe = B.build(sim)
    except B.BuildError as e: fail("cannot build the simulator from %s:\n%s" % (B.REPO, e))
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="sim-", dir=B.OUT)
    try: return run(prop, sim, exe, tier, seed, secs, minruns, work, t0, tb)
    finally: shutil.rmtree(work, ignore_errors=True)

def run(prop, sim, exe, tier, seed, secs, minruns, work, t0, tb):
    env = dict(os.environ); env.pop("LIBEANTIC_STRICT_BINOP", None); env["LC_ALL"] = "C"
    kf = [k for k in known_findings() if k[0] == prop]
    with open(work + "/known", "w") as f:
        for k in kf: f.write("\t".join(k) + "\n")
    workers = str(os.cpu_count() or 4)
    det = 10 if tier == "quick" else 200
    r = subprocess.run([exe, "determinism", "--prop", prop, "--seed", str(seed), "--runs", str(det)], capture_output=True, text=True, env=env)
    nondet = r.stdout + r.stderr if r.returncode else None   # fatal, unless the search finds a violation that replays exactly
    ts = time.time()
    r = subprocess.run([exe, "search", "--prop", prop, "--seed", str(seed), "--seconds", str(secs), "--workers", workers, "--out", work, "--known", work + "/known", "--minruns", str(minruns), "--maxseconds", str(max(200, secs))], capture_output=True, text=True, env=env)
    if r.returncode: fail("search failed: " + r.stdout[-2000:] + r.stderr[-2000:])
    tsearch = time.time() - ts
    cnt = {}; runs = inv = nontriv = 0; states = set(); inter = set(); hashes = set(); known = {}; invk = {}; samples = []
    for f in sorted(glob.glob(work + "/stats.*")):
        for l in open(f, errors="replace"):
            p = l.rstrip("\n").split(" ", 1); k, v = p[0], p[1] if len(p) > 1 else ""
            if k == "runs": runs += int(v)
            elif k == "invalid": inv += int(v)
            elif k == "nontrivial": nontriv += int(v)
            elif k == "counter": a, b = v.rsplit(" ", 1); cnt[a] = cnt.get(a, 0) + int(b)
            elif k == "s": states.add(v)
            elif k == "i": inter.add(v)
            elif k == "h": hashes.add(v)
            elif k == "known": a, b = v.split(" ", 1); known[b] = known.get(b, 0) + int(a)
            elif k == "inv": a, b = v.split(" ", 1); invk[b] = invk.get(b, 0) + int(a)
            elif k == "sample": samples.append(json.loads(v))
    viol = sorted(glob.glob(work + "/viol.*"), key=lambda f: (os.path.getsize(f), f))
    code = 0; violations = 0; replay = None
    if viol:
        rd = os.environ.get("EANTIC_REPLAYS", V + "/replays"); os.makedirs(rd, exist_ok=True); ok = False; why = ""
        for vf in viol[:3]:
            idx = vf.rsplit(".", 1)[1]; replay = "%s/%s-seed%d-run%s.replay" % (rd, prop, seed, idx)
            m = subprocess.run([exe, "minimise", vf, replay], capture_output=True, text=True, env=env)
            cand = [replay, vf] if m.returncode == 0 else [vf]
            for c in cand:
                outs = []
                for i in range(2):
                    q = subprocess.run([exe, "replay", c], capture_output=True, text=True, env=env); outs.append((q.returncode, re.findall(r"^(?:KIND|HASH) .*$", q.stdout, re.M)))
                if outs[0] == outs[1] and outs[0][0] == 1 or (outs[0][0] == 1 and outs[1][0] == 1 and "KIND hang" in str(outs)):
                    if c != replay: shutil.copy(c, replay)
                    ok = True; break
                why = "replay of run %s is not stable: %s" % (idx, outs)
            if ok: break
        if not ok: fail("a violation was seen but could not be reproduced from its replay file (%s)" % why)
        msg = re.search(r"^KIND .*\nMSG .*$", q.stdout, re.M)
        print((msg.group(0) if msg else "")[:1500]); violations = 1; code = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": violations,
      "coverage": {
        "evaluations": runs, "distinct_nontrivial": nontriv,
        "rule": "Each run is one script of operations and faults generated from VERIF_SEED and the run index (" + ("threads are scheduled by the seeded scheduler" if sim == "simT" else "clients are interleaved by the seeded generator") + ") and executed in a fresh process. A run is non-trivial when at least one check of the property was evaluated in it and its event hash differs from all other runs of its worker.",
        "samples": samples[:3],
        "simulated_runs_per_hour": int(runs / max(tsearch, .001) * 3600), "seeds_per_hour": int(runs / max(tsearch, .001) * 3600),
        "simulated_time": {"unit": "scheduler steps (instrumented memory accesses, synchronisation operations and library calls)" if sim == "simT" else "operations of simulated clients", "total": cnt.get("steps", 0) if sim == "simT" else cnt.get("operations", 0)},
        "operations": cnt.get("operations", 0), "checks_evaluated": cnt.get("checks", 0), "calls_into_the_code": cnt.get("sut_calls", 0), "library_calls_made_by_the_code": cnt.get("external_calls", 0), "allocations_simulated": cnt.get("allocations", 0),
        "faults_injected": {k: cnt.get(k, 0) for k in FAULTS if cnt.get(k, 0)},
        "distinct_event_histories": len(hashes), "distinct_interleavings": len(inter), "distinct_interleavings_measure": "hash of the sequence of (thread, kind) over all synchronisation, atomic and allocation events of a run" if sim == "simT" else "not applicable (single-threaded world)",
        "distinct_states": len(states), "distinct_states_measure": "hash of (operation, shape of operands, refinement state) combinations reached",
        "unjudged_runs": inv, "unjudged_reasons": invk, "known_findings_hit": known,
        "determinism_self_check_runs": det, "build_s": round(tb, 1), "search_s": round(tsearch, 1), "workers": int(workers),
        "real_components": REAL_T if sim == "simT" else REAL_S, "stubbed_components": STUB_T if sim == "simT" else STUB_S},
      "assumptions": ["FLINT, GMP and the reference model (GMP-only) are correct", "gcc's instrumentation reports every memory access of the library; accesses inside FLINT are modelled by the const-ness of its prototypes" if sim == "simT" else "inputs come from the generator described in DESIGN.md"]}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for k in kf: print("KNOWN-FINDING: property=%s %s: %s" % k)
    print("%s %s: %d runs, %d distinct non-trivial, %d checks, %.0f s search, %d violation(s)" % (prop, tier, runs, nontriv, cnt.get("checks", 0), tsearch, violations))
    if code: print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
    elif nondet: fail("the simulation is not deterministic: " + nondet)
    elif runs == 0 or cnt.get("checks", 0) == 0: fail("nothing was explored")
    return code

if __name__ == "__main__": sys.exit(main())
