"""Shared pieces of the file-to-file job scenarios (C04, C05, C11, C12)."""
from __future__ import annotations

import hashlib
import os
import random
import shutil

from sim import core
from sim.base import Grants, Scenario, Stats, cp, pick_faults, resolve, result, shrink_runs, viol

from . import stages
from .stages import DATAKEYS, STAGES, content, differ

NAMES = sorted(STAGES)


def draw_stage(rng, names=None):
    """A stage and its options: the run's slot, with the other options drawn."""
    if names is None and getattr(rng, "index", None) is not None:
        name, over = stages.slot(rng.index, rng.base)
        rng.index = None
        p = STAGES[name].make(rng)
        p.update(over)
        return name, p
    ns = names or NAMES
    name = rng.choices(ns, [STAGES[n].weight / STAGES[n].cost ** .5 for n in ns])[0]
    return name, STAGES[name].make(rng)


def job(name, p, d, o, clobber):
    """One stage as a batch job: own working directory, nothing kept but its files."""
    os.makedirs(d + "/cwd", exist_ok=True)
    os.chdir(d + "/cwd")
    STAGES[name].run(p, d, o, clobber)


def retry_job(name, p, d, o, clobber, first_clobber=True):
    """The failed attempt and its repetition in one process, the fault being over."""
    os.makedirs(d + "/cwd", exist_ok=True)
    os.chdir(d + "/cwd")
    exc = None
    try:
        STAGES[name].run(p, d, o, first_clobber)
    except Exception as e:  # noqa
        exc = type(e).__name__
    r = core.region(0).s
    r.nplan = r.sticky = r.full = 0
    STAGES[name].run(p, d, o, clobber)
    return exc


def prepare(name, p, d):
    os.makedirs(d + "/in")
    STAGES[name].setup(p, d)


def outs_of(name, p, refdir):
    o = STAGES[name].outs(p)
    if o is None:
        o = {f: "uvh5" for f in listing(refdir)}
    return o


def listing(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)


def not_cache(f):
    return not f.startswith("cache/")


def reference(name, p, d, st, sub="ref"):
    """Fault-free run into a fresh directory."""
    o = d + "/" + sub
    os.makedirs(o)
    r = core.run_job(job, name, p, d, o, False)
    st.job(r)
    return r, o


def contents(o, outs, keysonly=False):
    c = {}
    for f, kind in outs.items():
        c[f] = content(o + "/" + f, kind) if os.path.exists(o + "/" + f) else None
    return c


def compare(o, outs, ref, core_only=False):
    """First difference between the products in ``o`` and the reference contents."""
    for f, kind in outs.items():
        if ref[f] is None:
            continue
        if not os.path.exists(o + "/" + f):
            return f"{f} is missing"
        try:
            c = content(o + "/" + f, kind)
        except Exception as e:
            return f"{f} cannot be read: {type(e).__name__}: {e}"
        m = differ(c, ref[f], DATAKEYS.get(kind) if core_only else None)
        if m:
            return f"{f}: {m}"
    return None


class Pipe(Scenario):
    lists = ("faults",)
    simple = {}

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        p = case["p"]
        for k, v in sorted(p.items()):
            if k == "seed":
                continue
            alts = []
            if isinstance(v, bool):
                alts = [False] if v else []
            elif isinstance(v, int) and v > 1:
                alts = [1, 2, v - 1]
            elif isinstance(v, list) and len(v) > 1 and all(isinstance(x, str) for x in v):
                alts = [v[:1], v[1:]]
            for a in alts:
                if a != v:
                    c = cp(case)
                    c["p"][k] = a
                    yield c
