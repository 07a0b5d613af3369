"""C16: World P (py_world.py) against the library built from /repo; used by check.py."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
import build as B
V = B.V; S = B.S
PY = "/opt/vp/venv/bin/python"

def libs():
    L = B.REPO + "/libeantic"; csrc, cxx = B.sut_sources(L)
    hh = B.headers([L + "/e-antic", L + "/src", L + "/srcxx"], (".h", ".hpp", ".in"))
    key = B.h(hh, *[B.rd(c) for c in csrc + cxx], B.rd(os.path.abspath(__file__)))
    d = B.OUT + "/py-" + key
    if os.path.exists(d + "/done"): return d
    w = d + ".tmp%d" % os.getpid(); shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/gen"); os.makedirs(w + "/obj")
    B.gen_headers(w + "/gen", L, d)
    inc = ["-I" + w + "/gen", "-I" + L]; f = ["-O1", "-fPIC", "-w", "-DBUILD_LIBEANTIC"] + inc; jobs = []; oc = []; ox = []
    for i, c in enumerate(csrc): o = "%s/obj/c%d.o" % (w, i); oc.append(o); jobs.append(["gcc", "-std=gnu11"] + f + ["-c", c, "-o", o])
    for i, c in enumerate(cxx): o = "%s/obj/x%d.o" % (w, i); ox.append(o); jobs.append(["g++", "-std=c++17"] + f + ["-c", c, "-o", o])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(B.sh, sorted(jobs, key=lambda j: -os.path.getsize(j[-3]))))
    B.sh(["gcc", "-shared", "-Wl,-soname,libeantic.so", "-o", w + "/libeantic.so"] + oc + ["-lflint", "-lgmp"])
    B.sh(["g++", "-shared", "-Wl,-soname,libeanticxx.so", "-o", w + "/libeanticxx.so"] + ox + ["-L" + w, "-leantic", "-lflint", "-lgmpxx", "-lgmp"])
    shutil.rmtree(w + "/obj"); open(w + "/done", "w").close()
    try: os.rename(w, d)
    except OSError: shutil.rmtree(w, ignore_errors=True)
    return d

def fail(m): print("CHECK-ERROR: " + m, flush=True); sys.exit(2)

def main(tier, seed, t0):
    prop = "C16"; secs, minruns = (60, 60) if tier == "quick" else (int(os.environ.get("VERIF_SECONDS", 1200)), 60)
    if tier == "quick" and os.environ.get("VERIF_SECONDS"): secs = int(os.environ["VERIF_SECONDS"])
    if not os.path.exists(PY): fail("no python with cppyy")
    os.makedirs(B.OUT, exist_ok=True)
    try: d = libs()
    except B.BuildError as e: fail("cannot build the library from %s:\n%s" % (B.REPO, e))
    tb = time.time() - t0; L = B.REPO + "/libeantic"; work = tempfile.mkdtemp(prefix="py-", dir=B.OUT)
    env = {k: v for k, v in os.environ.items() if k not in ("LIBEANTIC_STRICT_BINOP", "PYTHONPATH", "LD_PRELOAD")}
    env.update(CPPYY_CRASH_QUIET="1", PYTHONHASHSEED="0", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C",
      EXTRA_CLING_ARGS="-Wno-macro-redefined -I%s -I%s/gen" % (L, d), LD_LIBRARY_PATH=d, PYTHONPATH=B.REPO + "/pyeantic/src", HOME=work)
    cmd = [PY, "-W", "ignore", S + "/py_world.py"]
    def call(args, timeout=900): return subprocess.run(cmd + args, capture_output=True, text=True, env=env, cwd=work, timeout=timeout)
    try:
        det = 6 if tier == "quick" else 60
        # a failure while warming up (no schedule, no faults) is reported as a violation too: it is a run with an empty schedule
        workers = os.cpu_count() or 4; ts = time.time()
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            rs = list(ex.map(lambda w: call(["search", str(seed), str(w), str(workers), str(secs), str(minruns), "%s/w%d" % (work, w)], secs + 600), range(workers)))
        tsearch = time.time() - ts
        rd = os.environ.get("EANTIC_REPLAYS", V + "/replays"); os.makedirs(rd, exist_ok=True)
        code = 0; replay = None; viol = sorted(glob.glob(work + "/w*.viol"), key=os.path.getsize)
        agg = [json.load(open("%s/w%d" % (work, w))) for w in range(workers) if os.path.exists("%s/w%d" % (work, w))]
        if not viol:
            for r in rs:
                if r.returncode:
                    t = r.stderr.strip().split("\n")[-1]
                    r2 = call(["one", "0", "0"])
                    if r2.returncode not in (0, 1) or "Violation" in r2.stderr:
                        replay = "%s/%s-warmup.replay" % (rd, prop); json.dump({"property": prop, "fields": [1, 5], "epochs": [], "kind": "warmup", "msg": t, "how": "runs every operation once in order, without faults: py_world.py one 0 0", "stderr": r2.stderr[-3000:]}, open(replay, "w"), indent=1)
                        print("KIND warmup\nMSG " + t[:600]); code = 1; break
                    fail("search failed: %s" % (r.stderr[-2000:]))
        else:
            ok = False
            for vf in viol[:3]:
                s = json.load(open(vf)); replay = "%s/%s-seed%d-run%d.replay" % (rd, prop, seed, s["index"])
                m = call(["minimise", vf, replay]); cand = [replay, vf] if m.returncode == 0 else [vf]
                for c in cand:
                    q = [call(["replay", c]) for _ in range(2)]; o = [(x.returncode, re.findall(r"^(?:KIND|HASH) .*$", x.stdout, re.M)) for x in q]
                    if o[0] == o[1] and o[0][0] == 1 or (o[0][0] == o[1][0] == 1 and o[0][1][0] == o[1][1][0] and ("crash" in o[0][1][0] or "hang" in o[0][1][0])):
                        if c != replay: shutil.copy(c, replay)
                        ok = True; break
                if ok: break
            if not ok: fail("a violation was seen but not reproduced: %s" % open(viol[0]).read()[:1500])
            print("\n".join(re.findall(r"^(?:KIND|MSG) .*$", q[0].stdout, re.M))[:1500]); code = 1
        if not code:
            r = call(["determinism", str(seed), str(det)])
            if r.returncode: fail("the simulation is not deterministic: " + r.stdout + r.stderr[-500:])
        cnt = {}; runs = 0; nt = 0; hs = set(); os_ = set(); st = set(); samples = []
        for a in agg:
            runs += a["runs"]; nt += a["nontrivial"]; hs |= set(a["hashes"]); os_ |= set(a["orders"]); st |= set(a["states"]); samples += a["samples"]
            for k, v in a["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": code, "coverage": {
          "evaluations": runs, "distinct_nontrivial": min(nt, len(hs)), "rule": "Each run is a script of epochs (operations of 1-3 client threads, preemption and garbage collection points) generated from VERIF_SEED and the run index; non-trivial when at least one check was evaluated and its event log is new.",
          "samples": samples[:3], "simulated_runs_per_hour": int(runs / max(tsearch, .01) * 3600), "seeds_per_hour": int(runs / max(tsearch, .01) * 3600),
          "simulated_time": {"unit": "scheduling points (lines of pyeantic and cppyythonizations code, operation ends)", "total": cnt.get("steps", 0)}, "operations": cnt.get("operations", 0), "checks_evaluated": cnt.get("checks", 0),
          "faults_injected": {k: cnt.get(k, 0) for k in "preemption garbage_collection garbage_cycle finalizer restart torn_pickle rejected_input adversarial_drop_order".split()}, "pickles": cnt.get("pickles", 0), "unpickles": cnt.get("unpickles", 0),
          "distinct_event_histories": len(hs), "distinct_interleavings": len(os_), "distinct_interleavings_measure": "hash of the sequence of (point, client) switches and operations", "distinct_states": len(st), "distinct_states_measure": "hash of (operation, outcome, number of clients)",
          "determinism_self_check_runs": det, "build_s": round(tb, 1), "search_s": round(tsearch, 1), "workers": workers,
          "real_components": ["libeantic and libeanticxx built from /repo", "pyeantic/src from /repo", "CPython, cppyy, cppyythonizations, pickle, FLINT, GMP"],
          "stubbed_components": ["thread scheduling (baton handed over only at seeded points)", "garbage collector timing (run only at seeded points)", "interpreter restart (fork of a pristine interpreter, only pickled bytes survive)", "freed memory (poisoned by malloc)"]},
          "assumptions": ["CPython, cppyy, FLINT and GMP are correct", "the Python reference model (fractions) is correct"]}
        os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
        print("%s %s: %d runs, %d checks, %.0f s search, %d violation(s)" % (prop, tier, runs, cnt.get("checks", 0), tsearch, code))
        if code: print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        elif not cnt.get("checks"): fail("nothing was explored")
        return code
    finally: shutil.rmtree(work, ignore_errors=True)
