"""Shared scenario machinery: fault placement, shrinking helpers, result assembly."""
from __future__ import annotations

import copy
import json
import random

from . import core

READ_OPS = ("open_r", "read")
WRITE_OPS = ("open_w", "write", "trunc", "rename", "unlink", "fsync", "mkdir")


def pick_faults(rng, n, kinds, classes):
    """Abstract faults: class of call to hit, position as a fraction, action."""
    out = []
    for _ in range(n):
        act = rng.choice(kinds)
        cls = rng.choice(classes)
        f = {"cls": cls, "frac": round(rng.random(), 6), "act": act}
        if rng.random() < .25:
            f["frac"] = rng.choice([0.0, 0.999999])
        if act == "err":
            f["err"] = rng.choice(["EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "ESTALE", "ENOENT"])
        if act in ("torn", "short"):
            f["arg"] = rng.choice([0, 1, 64, 128, 200, 255])
        out.append(f)
    return out


def resolve(faults, ops, match=None):
    """Concrete plan against the calls of a fault-free profile run."""
    plan = []
    for f in faults:
        cls = f["cls"]
        if cls == "any":
            idx = [o[0] for o in ops if o[1] != "stat"]
        elif cls == "read":
            idx = [o[0] for o in ops if o[1] in READ_OPS]
        elif cls == "open_r":
            idx = [o[0] for o in ops if o[1] == "open_r"]
        elif cls == "write":
            idx = [o[0] for o in ops if o[1] in WRITE_OPS]
        elif cls == "lastwrite":
            idx = [o[0] for o in ops if o[1] in WRITE_OPS][-12:]
        elif cls == "firstwrite":
            idx = [o[0] for o in ops if o[1] in WRITE_OPS][:6]
        elif cls in ("infile", "infile_open"):
            # one of the input files, each as likely as the others, then one of its calls
            want = ("open_r",) if cls == "infile_open" else READ_OPS
            by = {}
            for o in ops:
                if o[1] in want and o[2].startswith("in/"):
                    by.setdefault(o[2], []).append(o[0])
            x = f["frac"] * len(by)
            idx = by[sorted(by)[min(int(x), len(by) - 1)]] if by else []
            f = dict(f, frac=min(x - int(x), .999999))
        else:
            idx = [o[0] for o in ops if o[1] == cls]
        if match is not None:
            ok = {o[0] for o in ops if match(o)}
            idx = [i for i in idx if i in ok]
        if not idx:
            continue
        at = idx[min(int(f["frac"] * len(idx)), len(idx) - 1)]
        plan.append({"at": at, "act": f["act"], "err": f.get("err", "EIO"), "arg": f.get("arg", 128)})
    plan.sort(key=lambda p: p["at"])
    return plan


def viol(sig, msg, **kw):
    d = {"sig": sig, "msg": str(msg)[:3000]}
    d.update(kw)
    return d


def result(violation=None, events="", nontrivial=True, stats=None, summary=None, trace=None, **kw):
    out = {"violation": violation, "events": core.digest(events), "nontrivial": bool(nontrivial), "stats": stats or {},
           "summary": summary, "trace": trace}
    out.update(kw)
    return out


def cp(case, **kw):
    c = copy.deepcopy(case)
    c.update(kw)
    return c


class Scenario:
    name = "?"

    def gen(self, rng):
        raise NotImplementedError

    def execute(self, case, scratch):
        raise NotImplementedError

    def shrink(self, case, scratch):
        """Generic: drop list items, simplify booleans listed in ``simple``."""
        for key in getattr(self, "lists", ("faults",)):
            v = case.get(key) or []
            lo = getattr(self, "minlen", {}).get(key, 0)
            if len(v) > lo + 2:
                for h in (v[:len(v) // 2], v[len(v) // 2:]):
                    if len(h) >= lo:
                        yield cp(case, **{key: h})
            if len(v) > lo:
                for i in range(len(v)):
                    yield cp(case, **{key: v[:i] + v[i + 1:]})
        for key, val in getattr(self, "simple", {}).items():
            if key in case and case[key] != val:
                yield cp(case, **{key: val})


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def job(self, res):
        self.add("jobs")
        self.add("ops", res.nops)
        if res.status == "crash":
            self.add("probe:job_crashed")
        elif res.status == "exc":
            self.add("probe:job_raised")

    def fired(self, plan, res):
        at = {p["at"]: p for p in plan}
        for k in res.fired:
            p = at.get(k)
            if p:
                self.add("fault:" + p["act"] + ("_" + p["err"] if p["act"] == "err" else ""))


class Grants:
    """Scheduling policy of a Cluster: a seeded choice of which job's next call is granted.

    conf: {"seed", "p"} (stay with the current job with probability 1-p) or
    {"runs": [[job, n], ...]} replaying recorded choices.  Faults are
    {"job", "cls", "k", "act", ...}: the k-th call of that class by that job.
    """

    def __init__(self, conf, faults=()):
        self.rng = random.Random(conf["seed"]) if "runs" not in conf else None
        self.p = conf.get("p", .3)
        self.runs = [list(r) for r in conf.get("runs", [])]
        self.taken = []
        self.faults = [dict(f) for f in faults]
        self.count = {}
        self.cur = None
        self.fired = []

    def __call__(self, step, pend):
        jobs = sorted(pend)
        if self.rng is not None:
            if self.cur in pend and self.rng.random() >= self.p:
                j = self.cur
            else:
                j = self.rng.choice(jobs)
        else:
            while self.runs and (self.runs[0][1] <= 0 or self.runs[0][0] not in pend):
                self.runs.pop(0)
            if self.runs:
                j = self.runs[0][0]
                self.runs[0][1] -= 1
            else:
                j = self.cur if self.cur in pend else jobs[0]
        self.cur = j
        if self.taken and self.taken[-1][0] == j:
            self.taken[-1][1] += 1
        else:
            self.taken.append([j, 1])
        op = pend[j][0]
        v = ("ok", None, None)
        for f in self.faults:
            if f["job"] != j or f.get("done"):
                continue
            cls = f["cls"]
            hit = op == cls or cls == "any" and op not in ("stat", "listdir") or cls == "write" and op in WRITE_OPS or cls == "read" and op in READ_OPS
            if hit:
                f["n"] = f.get("n", -1) + 1
                if f["n"] == f["k"]:
                    f["done"] = True
                    self.fired.append(dict(job=j, step=step, op=op, act=f["act"], err=f.get("err")))
                    v = (f["act"], f.get("err", "EIO"), f.get("arg", 128))
        return j, v


def shrink_runs(case, key="sched"):
    """Candidates with fewer context switches."""
    runs = case[key].get("runs")
    if not runs:
        return
    for i in range(len(runs)):
        r = [list(x) for x in runs]
        del r[i]
        c = cp(case)
        c[key] = {"runs": r}
        yield c
