"""C03: the shared filter cache is readable at any moment and holds complete entries only."""
from __future__ import annotations

import os
import pickle
import random

import numpy as np

from sim import core
from sim.base import Grants, Scenario, Stats, cp, result, shrink_runs, viol


def value(writer, key):
    n = 40 + (writer * 7 + len(str(key))) % 90
    return np.arange(n, dtype=float) * (writer + 1) + len(repr(key))


def mkey(k):
    # keys as the filters make them: tuples of scalars and strings
    return ("wgts%d" % k, k * 1.5, "dpss_leastsq", (k, k + 1))


def mark(d, what):
    try:
        os.stat(os.path.join(d, "mark", what))
    except OSError:
        pass


def job(d, me, ops, big):
    """One filtering job's cache traffic; returns what each read gave."""
    from hera_cal import io
    cdir = os.path.join(d, "cache")
    out, cache = [], {}
    for n, (kind, keys) in enumerate(ops):
        mark(d, f"begin-{me}-{n}")
        if kind == "read":
            try:
                got = io.read_filter_cache_scratch(cdir)
                out.append((n, "read", {k: (v.shape, float(np.sum(v)) if v.size else 0.) for k, v in got.items()}))
                cache.update(got)
            except Exception as e:
                import traceback
                out.append((n, "read-exc", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]))
        else:
            before = list(cache.keys())
            new = {}
            for k in keys:
                kk = mkey(k)
                if kk not in cache:
                    new[kk] = np.concatenate([value(me, kk)] * (400 if big else 1))
            cache.update(new)
            try:
                io.write_filter_cache_scratch(cache, cache_dir=cdir, skip_keys=before)
                out.append((n, "write", {k: (v.shape, float(np.sum(v))) for k, v in new.items()}))
            except Exception as e:
                for k in new:
                    cache.pop(k)
                out.append((n, "write-exc", f"{type(e).__name__}: {e}"))
        mark(d, f"end-{me}-{n}")
    return out


class Cache(Scenario):
    lists = ("jobs", "faults")
    minlen = {"jobs": 1}
    simple = {"big": False, "pre": 0, "listseed": 0}

    def gen(self, rng):
        njobs = rng.randint(2, 5)
        jobs = []
        for j in range(njobs):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ops.append(["read", []])
                if rng.random() < .75:
                    ks = rng.sample(range(12), rng.randint(1, 3))
                    ops.append(["write", ks])
            if rng.random() < .5:
                ops.append(["read", []])
            jobs.append({"ops": ops, "start": None if rng.random() < .7 else rng.randint(1, 60)})
        faults = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                f = {"job": rng.randrange(njobs), "cls": rng.choice(["write", "write", "open_w", "close_w", "rename", "any", "fsync"]),
                     "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 6]), "act": rng.choice(["crash", "crash_after", "torn", "torn", "err", "full"])}
                if f["act"] == "err":
                    f["err"] = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
                if f["act"] == "torn":
                    f["arg"] = rng.choice([0, 3, 100, 200, 254])
                if f["cls"] == "any":
                    f["k"] = rng.randint(0, 40)
                faults.append(f)
        return dict(jobs=jobs, faults=faults, big=rng.random() < .4, pre=rng.randint(0, 2), listseed=rng.randrange(1, 1 << 30) if rng.random() < .7 else 0,
                    jseed=rng.randrange(1 << 30), sched=dict(seed=rng.randrange(1 << 30), p=rng.choice([.05, .2, .5, 1.0])))

    def execute(self, case, scratch):
        st = Stats()
        d = scratch
        cdir = os.path.join(d, "cache")
        os.makedirs(cdir)
        os.makedirs(os.path.join(d, "mark"))
        begun, done = {}, {}     # (me, n) -> step

        def absorb(me, val, base):
            pass
        history = []   # ("w"/"r", me, n, t0, t1, payload)
        clock = 0
        # earlier, finished jobs
        for p in range(case["pre"]):
            r = core.run_job(job, d, 50 + p, [["read", []], ["write", [p * 3, p * 3 + 1]]], case["big"], seed=case["jseed"] + 500 + p, listseed=case["listseed"])
            st.job(r)
            if r.status != "ok":
                return result(viol("job", f"a cache job without faults ended with {r.brief()}\n{r.tb}"), case, True, st)
            for n, kind, pay in r.value:
                history.append((kind, 50 + p, n, clock, clock, pay))
                clock += 1
        base = clock + 1
        pol = Grants(case["sched"], case["faults"])
        # distinct seeds: separate processes draw separate random file names
        cl = core.Cluster([(job, (d, j, q["ops"], case["big"]), case["jseed"] + j, q["start"]) for j, q in enumerate(case["jobs"])], pol, listseed=case["listseed"])
        res = cl.run()
        for f in pol.fired:
            st.add("fault:" + f["act"] + ("_" + f["err"] if f["act"] == "err" else ""))
        t0, t1, endt = {}, {}, {}
        for i, t in enumerate(cl.trace):
            if t[2] == "stat" and "mark/" in t[3]:
                a = os.path.basename(t[3]).split("-")
                (t0 if a[0] == "begin" else t1)[int(a[1]), int(a[2])] = base + i
        end = base + len(cl.trace) + 1
        v = None
        writes_keys = {}
        for j, (q, r) in enumerate(zip(case["jobs"], res)):
            st.job(r)
            if r.status == "hang" or r.status == "signal":
                v = viol("job", f"job {j}: {r.brief()}")
            if r.status == "exc":
                v = viol("job", f"job {j} ended with {r.brief()}\n{r.tb}")
            vals = {n: (kind, pay) for n, kind, pay in (r.value or [])}
            for n, op in enumerate(q["ops"]):
                if (j, n) not in t0:
                    continue
                if n in vals:
                    history.append((vals[n][0], j, n, t0[j, n], t1[j, n], vals[n][1]))
                elif op[0] == "write":
                    history.append(("write-exc", j, n, t0[j, n], end, "crashed"))
        # a fresh job reads at the end
        r = core.run_job(job, d, 99, [["read", []]], False, seed=case["jseed"] + 999, listseed=case["listseed"] ^ 5)
        st.job(r)
        if r.status != "ok":
            v = v or viol("job", f"final reader: {r.brief()}")
        else:
            history.append((r.value[0][1], 99, 0, end + 1, end + 2, r.value[0][2]))
        v = v or self.judge(history, case, st)
        st.add("switches", len(pol.taken))
        nt = len(pol.taken) > 4
        return result(v, (case, [(t[1], t[2], os.path.basename(t[3])) for t in cl.trace], pol.fired), nt, st,
                      summary={"jobs": [len(q["ops"]) for q in case["jobs"]], "grants": len(cl.trace), "fired": pol.fired},
                      trace={"runs": pol.taken, "calls": [[t[1], t[2], os.path.basename(t[3])] for t in cl.trace][:400]})

    def judge(self, history, case, st):
        writes = [h for h in history if h[0] == "write"]
        possible = {}      # key -> [(begin, value)]
        for kind, me, n, a, b, pay in history:
            if kind == "write":
                for k, s in pay.items():
                    possible.setdefault(k, []).append((a, s))
            elif kind == "write-exc":
                keys = case["jobs"][me]["ops"][n][1] if me < 50 else []
                for k in keys:
                    kk = mkey(k)
                    vv = np.concatenate([value(me, kk)] * (400 if case["big"] else 1))
                    possible.setdefault(kk, []).append((a, (vv.shape, float(np.sum(vv)))))
                st.add("probe:write_interrupted")
        faulty = [f["job"] for f in case["faults"]]
        for kind, me, n, a, b, pay in history:
            if kind == "read-exc":
                if me in faulty and any(x in str(pay) for x in ("Errno", "MemoryError")) and any(f["job"] == me for f in case["faults"]):
                    continue        # its own injected disk error
                return viol("read_failed", f"job {me} could not read the cache while others were writing or after they died: {pay}")
            if kind == "write-exc" and me not in faulty:
                return viol("write_failed", f"job {me} failed to write without a fault: {pay}")
            if kind != "read":
                continue
            st.add("probe:reads_checked")
            for _, wme, wn, wa, wb, wpay in writes:
                if wb < a:
                    for k in wpay:
                        if k not in pay:
                            return viol("lost", f"entry {k} published by job {wme} before job {me} read the cache is missing")
                    if wme != me and wa > 0:
                        st.add("probe:read_saw_other_jobs_entry")
            for k, s in pay.items():
                ok = [1 for t, val in possible.get(k, []) if t < b and val[0] == tuple(s[0]) and np.isclose(val[1], s[1], rtol=1e-12)]
                if not ok:
                    return viol("wrong", f"job {me} read entry {k} = {s}, which no writer had stored")
        return None

    def shrink(self, case, scratch):
        for c in super().shrink(case, scratch):
            # job indices of faults follow the jobs that remain
            if len(c["jobs"]) != len(case["jobs"]):
                idx = [case["jobs"].index(j) for j in c["jobs"]]
                c["faults"] = [dict(f, job=idx.index(f["job"])) for f in c["faults"] if f["job"] in idx]
            yield c
        if "runs" not in case["sched"]:
            r = self.execute(case, core.fresh(scratch))
            core.fresh(scratch)
            yield cp(case, sched={"runs": r["trace"]["runs"]})
        yield from shrink_runs(case)


SCENARIOS = {"cache": Cache()}
