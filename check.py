#!/usr/bin/env python3
"""Runs the simulation check of one property.

usage: check.py PROP [--tier quick|thorough] [--seed N] [--runs K] [--replay FILE]

exit 0: the property held on everything explored
exit 1: a line "VIOLATION property=<id> replay=<path>"
exit 2: the check itself failed
"""
import argparse
import collections
import ctypes
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("SIM_REPO", "/repo")     # another copy of the tree, for development only
NZYG = 8            # interpreters, each with its own fixed hash seed; independent of core count
HASHSEEDS = [0, 1, 2, 3, 17, 101, 4242, 31337]


def build(dst):
    so = os.path.join(dst, "simfs.so")
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", so, os.path.join(HERE, "sim", "simfs.c"), "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        print("cannot build simfs.so\n" + r.stderr)
        sys.exit(2)
    return so


def fixed_addresses():
    """No address randomisation: HDF5's LZF filter reads an uninitialised hash table, so what it writes depends on addresses."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:  # noqa
        pass


class Worker:
    def __init__(self, i, so, base):
        self.i = i
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(HASHSEEDS[i]), MPLBACKEND="Agg", JAX_PLATFORMS="cpu",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="TRUE",
                   XDG_CONFIG_HOME="/opt/vp/astropy-config" if os.path.isdir("/opt/vp/astropy-config") else os.path.join(HERE, "cfg"),
                   LD_PRELOAD=so, SIM_SO=so, SIM_SCRATCH=os.path.join(base, f"w{i}"), PYTHONPATH=(REPO + os.pathsep if REPO != "/repo" else "") + HERE, TZ="UTC")
        env.pop("PYTHONWARNINGS", None)
        self.err = open(os.path.join(base, f"w{i}.err"), "w+")
        self.p = subprocess.Popen([PY, "-m", "sim.worker"], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, preexec_fn=fixed_addresses)

    def ready(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("simulator process did not start:\n" + self.err.read()[-3000:])
        r = json.loads(line)
        if not r["hera_cal"].startswith(REPO + "/"):
            raise RuntimeError("hera_cal is imported from " + r["hera_cal"])

    def ask(self, **req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("simulator process died:\n" + self.err.read()[-3000:])
        return json.loads(line)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(known, prop, v):
    for k in known:
        if k.get("property") == prop and k.get("status") == "known" and k.get("signature") == v.get("sig"):
            return k
    return None


def minimise(w, prop, scen, case, viol, budget):
    """Greedy delta-debugging with the scenario's own shrink candidates."""
    sys.path.insert(0, HERE)
    t0, tried, best = time.time(), 0, (case, viol)
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        r = w.ask(cmd="shrink", prop=prop, scen=scen, case=best[0])
        for cand in r.get("cands", []):
            if time.time() - t0 > budget:
                break
            tried += 1
            rr = w.ask(cmd="case", prop=prop, scen=scen, case=cand)
            if rr.get("violation") and rr["violation"].get("sig") == viol.get("sig"):
                best = (cand, rr["violation"])
                improved = True
                break
    return best[0], best[1], tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--scen")
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--width", type=int, default=300)
    a = ap.parse_args()
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="hcsim.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    workers = []
    try:
        rc = run(a, base, workers, t0)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)


def run(a, base, workers, t0):
    prop = a.prop
    sys.path.insert(0, HERE)
    import specs
    spec = specs.SPECS[prop]
    so = build(base)
    known = load_known()
    if a.replay:
        return replay(a, base, workers, so)
    for i in range(NZYG):
        workers.append(Worker(i, so, base))
    for w in workers:
        w.ready()
    tier_cap = spec.get("cap", {"quick": 270, "thorough": 3000})[a.tier]
    todo = []
    for sc, conf in spec["scenarios"].items():
        if a.scen and sc != a.scen:
            continue
        n = a.runs or conf["quick"] * (1 if a.tier == "quick" else conf.get("factor", 12))
        todo += [(i / n, sc, i) for i in range(n)]
    todo.sort()
    # run k of the list always executes in interpreter k % NZYG
    lanes = [collections.deque() for _ in range(NZYG)]
    for k, (_, sc, i) in enumerate(todo):
        lanes[k % NZYG].append((sc, i))
    results, lock, stop = [], threading.Lock(), threading.Event()
    errors = []
    started = time.time()

    def lane(k):
        w, first = workers[k], True
        try:
            for sc, i in lanes[k]:
                if stop.is_set() or time.time() - started > tier_cap:
                    return
                r = w.ask(cmd="run", prop=prop, scen=sc, index=i, seed=a.seed)
                r.update(scen=sc, index=i, lane=k)
                if first and not r.get("violation") and not r.get("harness"):
                    # determinism: the same case again must give the same event log
                    first = False
                    r2 = w.ask(cmd="case", prop=prop, scen=sc, case=r["case"])
                    r["recheck"] = (r2.get("events") == r.get("events"))
                    if not r["recheck"] and os.environ.get("SIM_DEBUG"):
                        json.dump([r, r2], open(f"/tmp/mismatch-{prop}-{sc}-{i}.json", "w"), indent=1)
                with lock:
                    results.append(r)
                v = r.get("violation")
                if v and not is_known(known, prop, v) and not a.keep_going:
                    stop.set()
                if r.get("harness"):
                    errors.append(r)
                    if len(errors) > 3:
                        stop.set()
        except Exception as e:
            errors.append({"harness": f"lane {k}: {e}"})
            stop.set()

    ths = [threading.Thread(target=lane, args=(k,)) for k in range(NZYG)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    results.sort(key=lambda r: (r["scen"], r["index"]))

    viols = [r for r in results if r.get("violation")]
    new, knownhits = [], {}
    for r in viols:
        k = is_known(known, prop, r["violation"])
        if k:
            knownhits.setdefault(k["signature"], []).append(r)
        else:
            new.append(r)
    stats = collections.Counter()
    for r in results:
        for k, c in (r.get("stats") or {}).items():
            stats[k] += c
    keys = {r["events"] for r in results if r.get("nontrivial")}
    rechecks = [r["recheck"] for r in results if "recheck" in r]
    wall = time.time() - t0
    runwall = max(time.time() - started, 1e-6)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    samples = []
    for sc in spec["scenarios"]:
        for r in [r for r in results if r["scen"] == sc and r.get("nontrivial")][:2]:
            samples.append({"scenario": sc, "index": r["index"], "interpreter_hash_seed": HASHSEEDS[r["lane"]],
                            "case": r["case"], "summary": r.get("summary")})
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(keys),
            "rule": spec["rule"] + " Distinct: by the hash of the run's event log (grants, switches, faults fired, outcomes).",
            "samples": samples,
            "runs_per_scenario": dict(collections.Counter(r["scen"] for r in results)),
            "seeds_per_hour": round(len(results) / runwall * 3600),
            "simulated_operations": stats.get("ops", 0),
            "simulated_jobs": stats.get("jobs", 0),
            "thread_switches": stats.get("switches", 0),
            "simulated_time": "logical: one tick per file-system call or scheduling step (no property depends on wall time)",
            "faults_injected": faults, "reached": probes,
            "determinism_rechecks": len(rechecks), "determinism_mismatches": sum(1 for x in rechecks if not x),
            "interpreters": NZYG, "real_code": spec["real"], "stubs": spec["stubs"],
            "harness_errors": len(errors), "known_findings_hit": {k: len(v) for k, v in knownhits.items()},
        },
        "assumptions": spec["assumptions"], "wall_s": round(wall, 1), "violations": len(new),
    }
    rc = 0
    lines = []
    for k in known:
        if k.get("property") == prop and k.get("status") == "known":
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        rc = 1
        bysig = {}
        for r in new:
            bysig.setdefault(r["violation"].get("sig"), r)
        if a.keep_going:
            for r in new:
                print("  #", r["scen"], r["index"], r["violation"]["sig"], "|", r["violation"]["msg"][:a.width].replace("\n", " / "))
        for sig, r in list(bysig.items())[:3]:
            w = workers[r["lane"]]
            case, viol, tried = r["case"], r["violation"], 0
            if not a.no_min:
                try:
                    case, viol, tried = minimise(w, prop, r["scen"], case, viol, 90)
                except Exception as e:
                    print("minimisation stopped:", e)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{prop}-{r['scen']}-{a.seed}-{r['index']}.json")
            fin = w.ask(cmd="case", prop=prop, scen=r["scen"], case=case)
            with open(path, "w") as f:
                json.dump({"property": prop, "scenario": r["scen"], "seed": a.seed, "index": r["index"],
                           "interpreter": r["lane"], "violation": fin.get("violation") or viol, "events": fin.get("events"),
                           "case": case, "original_case": r["case"], "minimiser_runs": tried, "trace": fin.get("trace")}, f, indent=1)
            lines.append(f"VIOLATION property={prop} replay={path}")
            lines.append("  " + (fin.get("violation") or viol)["msg"][:1500])
    if errors and (not new or a.keep_going):
        rc = 2
        lines.append("CHECK ERROR: " + str(errors[0].get("harness"))[-3000:])
        lines.append(json.dumps(errors[0].get("case"))[:1500])
    if not new and not errors and len(results) < 0.2 * len(todo):
        lines.append(f"note: time cap reached after {len(results)} of {len(todo)} runs")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print(f"{prop}: {len(results)}/{len(todo)} runs, {len(keys)} distinct non-trivial, {stats.get('ops', 0)} simulated calls, "
          f"faults {faults}, reached {probes}, {ev['coverage']['determinism_mismatches']} determinism mismatches of {len(rechecks)}, "
          f"{len(new)} violations, {wall:.0f} s")
    return rc


def replay(a, base, workers, so):
    r = json.load(open(a.replay))
    w = Worker(r["interpreter"], so, base)
    workers.append(w)
    w.ready()
    rr = w.ask(cmd="case", prop=r["property"], scen=r["scenario"], case=r["case"])
    if rr.get("harness"):
        print(rr["harness"])
        return 2
    v = rr.get("violation")
    same = v and r["violation"] and v.get("sig") == r["violation"].get("sig") and rr.get("events") == r.get("events")
    print(json.dumps({"violation": v, "identical_events": rr.get("events") == r.get("events")}, indent=1))
    if v:
        print(f"VIOLATION property={r['property']} replay={os.path.abspath(a.replay)}" + ("" if same else "  (not the recorded execution)"))
        return 1
    print("not reproduced on this tree")
    return 0


if __name__ == "__main__":
    main()
