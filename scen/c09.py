"""C09: regrouping baseline-chunk files into time-chunk files loses nothing."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core, data as D, peer
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

from . import stages
from .c08 import FAULTS, finish


def regroup(template, chunks, out, clobber, bounds, cli):
    if cli:
        stages.script("time_chunk_from_baseline_chunks_run.py", template, "--baseline_chunk_files", *chunks, "--outfilename", out,
                      *(["--clobber"] if clobber else []), *(["--time_bounds"] if bounds else []))
    else:
        from hera_cal import vis_clean
        vis_clean.time_chunk_from_baseline_chunks(template, chunks, out, clobber=clobber, time_bounds=bounds)


def average(files, mine, out, clobber, t_avg):
    from hera_cal import frf, io
    frf.time_avg_data_and_write(files, out, t_avg, baseline_list=io.baselines_from_filelist_position(mine, files), clobber=clobber)


def sub(v, aps, pols, times, freqs, time_major, arr):
    w = D.Vis(v.antpos, aps, pols, times, freqs, time_major)
    w.data, w.flags, w.nsamples = {}, {}, {}
    for k in w.keys():
        w.data[k], w.flags[k], w.nsamples[k] = arr(k)
    return w


class Regroup(Scenario):
    def gen(self, rng):
        bounds = rng.random() < .5
        nfiles = rng.randint(1, 4)
        order = list(range(nfiles))
        rng.shuffle(order)
        npol = rng.choice([1, 2, 2, 4])
        nf = rng.randint(2, 5)
        spw = None
        if not bounds and rng.random() < .3:
            a = rng.randrange(nf)
            spw = [a, rng.randint(a + 1, nf)]
        return {"seed": rng.randrange(1 << 30), "bounds": bounds, "nants": rng.randint(2, 4), "npol": npol, "cpol": rng.choice([c for c in (1, 2, 4) if c <= npol]) if not bounds and rng.random() < .3 else npol,
                "nf": nf, "spw": spw, "nts": [rng.randint(1, 4)] * nfiles if rng.random() < .6 else [rng.randint(1, 4) for _ in range(nfiles)],
                "avg": rng.choice([1, 1, 2, 2, 3, 4]) if bounds else 1, "start": round(rng.uniform(.1, .7), 9), "nsplit": rng.choice([1, 2, 2, 3, 4]),
                "drop": rng.random() < .2 and not bounds, "reverse": rng.random() < .25, "jitter": not bounds and rng.random() < .3, "cli": rng.random() < .3, "tick": rng.random() < .4,
                "jobs": [[i, rng.randrange(2), rng.randrange(1 << 20), pick_faults(rng, rng.choice([0, 0, 0, 1, 2]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for i in order]}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos = D.grid_antpos(rng, case["nants"], compact=True)
        ants = sorted(antpos)
        prs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
        pols = ["nn", "ee", "ne", "en"][:case["npol"]]
        freqs = D.freqs_for(case["nf"])
        nt = sum(case["nts"])
        times = D.times_for(D.JD0, case["start"], nt)
        if case.get("tick"):
            times = times + nr.integers(-3, 4, nt) * 2.0**-31
        edges = np.concatenate([[0], np.cumsum(case["nts"])])
        templates = []
        for i in range(len(case["nts"])):
            v = D.Vis(antpos, prs, pols, times[edges[i]:edges[i + 1]], freqs, time_major=rng.random() < .7).fill(nr)
            templates.append(v.write(f"{scratch}/t.{i:02d}.uvh5"))
        cpols = pols[:case["cpol"]]
        lo, hi = case["spw"] or (0, case["nf"])
        m = case["avg"]
        ctimes = np.array([times[a:a + m].mean() for a in range(0, nt - (nt % m if m > 1 and nt > m else 0), m)])
        if case["jitter"]:
            ctimes = ctimes + nr.uniform(-.02, .02, len(ctimes)) * D.DT
        full = D.Vis(antpos, prs, cpols, ctimes, freqs[lo:hi]).fill(nr)
        for k in full.keys():
            if k[0] == k[1] and k[2][0] != k[2][1] and (k[0], k[1], k[2][::-1]) in full.data:
                full.data[k[0], k[1], k[2][::-1]] = full.data[k].conj()
        chunks, kept = [], set()
        shuffled = list(prs)
        rng.shuffle(shuffled)
        if case["drop"]:
            shuffled = shuffled[:-1] or shuffled
        for i in range(case["nsplit"]):
            aps = shuffled[i::case["nsplit"]]
            if not aps:
                continue
            if case["reverse"]:
                aps = [(b, a) if rng.random() < .5 else (a, b) for a, b in aps]
            w = sub(full, aps, cpols, ctimes, freqs[lo:hi], rng.random() < .7, lambda k: tuple(D.get(getattr(full, n), k) for n in ("data", "flags", "nsamples")))
            kept |= {k for k in full.keys() if D.has(w.data, k)}
            chunks.append(w.write(f"{scratch}/b.{i:02d}.uvh5"))
        seen = {}
        for i, where, lseed, faults in case["jobs"]:
            lst = list(chunks)
            random.Random(lseed).shuffle(lst)

            def args(kind, clob):
                return templates[i], lst, f"{scratch}/{kind}{i}.uvh5", clob, case["bounds"], case["cli"]
            r = finish(st, ev, regroup, args, where, faults, i)
            desc = f"template {i} ({case['nts'][i]} of {nt} integrations), {len(chunks)} baseline chunks, {'bounds' if case['bounds'] else 'exact times'}"
            if r.status != "ok":
                return result(viol("regroup-fails", f"{desc}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            out = f"{scratch}/real{i}.uvh5"
            a, b = edges[i], edges[i + 1]
            if not os.path.exists(out):
                if case["bounds"]:
                    continue
                return result(viol("regroup-none", f"{desc}: no output was written"), ev, True, st)
            try:
                g = D.read_uvh5(out)
            except Exception as e:
                return result(viol("regroup-unreadable", f"{desc}: {type(e).__name__}: {e}"), ev, True, st)
            if case["bounds"]:
                idx = []
                for t in g["times"]:
                    q = np.flatnonzero(np.abs(ctimes - t) < D.DT * .01)
                    if len(q) != 1:
                        return result(viol("regroup-times", f"{desc}: integration at {t:.8f} belongs to no input"), ev, True, st)
                    idx.append(int(q[0]))
                    seen.setdefault(int(q[0]), []).append(i)
                ok_t = ctimes[idx]
            else:
                idx = list(range(a, b))
                ok_t = times[a:b]
            exp = dict(times=ok_t, freqs=freqs[lo:hi])
            for n in ("data", "flags", "nsamples"):
                exp[n] = {k: getattr(full, n)[k][idx] for k in kept}
            if not case["bounds"] and case["drop"]:
                for k in list(g["data"]):
                    if not D.has(exp["data"], k):
                        if not g["flags"][k].all():
                            return result(viol("regroup-invented", f"{desc}: baseline {k} is in no chunk file but has unflagged data"), ev, True, st)
                        for n in ("data", "flags", "nsamples"):
                            del g[n][k]
            mm = D.diff_vis(g, exp, tol=1e-6)
            if not mm:
                for ap, t in g["times_of"].items():
                    if len(t) != len(ok_t) and any(ap + (p,) in g["data"] for p in cpols):
                        mm = f"baseline {ap} has {len(t)} integrations, expected {len(ok_t)}"
            if mm:
                return result(viol("regroup-wrong", f"{desc}: {mm}"), ev, True, st)
        v = None
        if case["bounds"] and len({j[0] for j in case["jobs"]}) == len(case["nts"]):
            lost = [q for q in range(len(ctimes)) if q not in seen]
            twice = {q: s for q, s in seen.items() if len(s) > 1}
            st.add("probe:straddling", int(any(np.any(np.abs(ctimes - (times[e - 1] + times[e]) / 2) < 1e-3 * D.DT) for e in edges[1:-1])))
            if lost or twice:
                v = viol("regroup-lost" if lost else "regroup-twice", f"files of {case['nts']} integrations, inputs averaged by {m}: integrations in no output {lost}, in several {twice}")
        return result(v, ev, len(case["jobs"]) > 0, st, summary={"templates": len(case["nts"]), "chunks": len(chunks), "bounds": case["bounds"]})

    def shrink(self, case, scratch):
        for i in range(len(case["jobs"])):
            j = case["jobs"][i]
            if len(case["jobs"]) > 1 and not case["bounds"]:
                yield cp(case, jobs=case["jobs"][:i] + case["jobs"][i + 1:])
            for a in ([j[0], 0] + j[2:], j[:3] + [[]]):
                if a != j:
                    yield cp(case, jobs=case["jobs"][:i] + [a] + case["jobs"][i + 1:])
        for k, v in (("spw", None), ("drop", False), ("reverse", False), ("jitter", False), ("tick", False), ("cli", False), ("nants", 2), ("nsplit", 1), ("nf", 2)):
            if case[k] != v and not (k == "nf" and case["spw"]):
                yield cp(case, **{k: v})
        if case["npol"] > 1:
            yield cp(case, npol=1, cpol=1)
        n = len(case["nts"])
        if n > 1:
            yield cp(case, nts=case["nts"][:-1], jobs=[j for j in case["jobs"] if j[0] < n - 1])
        for i in range(n):
            if case["nts"][i] > 1:
                yield cp(case, nts=case["nts"][:i] + [case["nts"][i] - 1] + case["nts"][i + 1:])


class Turn(Scenario):
    """Time-averaging jobs with a baseline share each, then regrouping jobs."""

    def gen(self, rng):
        nfiles = rng.randint(1, 3)
        return {"seed": rng.randrange(1 << 30), "nants": rng.randint(2, 3), "npol": rng.choice([1, 2]), "nts": [rng.randint(2, 4)] * nfiles, "avg": rng.choice([1, 2, 2, 3]), "nf": 2,
                "start": round(rng.uniform(.1, .7), 9),
                "a": [[i, rng.randrange(2), pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "lastwrite"])] for i in rng.sample(range(nfiles), nfiles)],
                "b": [[i, rng.randrange(2), rng.randrange(1 << 20), pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "lastwrite"])] for i in rng.sample(range(nfiles), nfiles)]}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos = D.grid_antpos(rng, case["nants"], compact=True)
        ants = sorted(antpos)
        prs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
        pols = ["nn", "ee"][:case["npol"]]
        times = D.times_for(D.JD0, case["start"], sum(case["nts"]))
        edges = np.concatenate([[0], np.cumsum(case["nts"])])
        files = [D.Vis(antpos, prs, pols, times[edges[i]:edges[i + 1]], D.freqs_for(case["nf"])).fill(nr).write(f"{scratch}/t.{i:02d}.uvh5") for i in range(len(case["nts"]))]
        made = {}
        for i, where, faults in case["a"]:
            r = finish(st, ev, average, lambda kind, clob: (files, files[i], f"{scratch}/{kind}-b.{i:02d}.uvh5", clob, case["avg"] * D.INT_S), where, faults, i)
            if r.status != "ok":
                return result(viol("turn-average-fails", f"job {i}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            p = f"{scratch}/real-b.{i:02d}.uvh5"
            if os.path.exists(p):
                made[p] = D.read_uvh5(p)
        have = [b for g in made.values() for b in g["antpairs"]]
        if sorted(min(b, b[::-1]) for b in have) != sorted(prs):
            return result(viol("turn-baselines", f"baseline-chunk files hold {sorted(have)}, the inputs {prs}"), ev, True, st)
        ctimes = list(made.values())[0]["times"]
        seen = {}
        for i, where, lseed, faults in case["b"]:
            lst = sorted(made)
            random.Random(lseed).shuffle(lst)
            r = finish(st, ev, regroup, lambda kind, clob: (files[i], lst, f"{scratch}/{kind}-o{i}.uvh5", clob, True, False), where, faults, i)
            if r.status != "ok":
                return result(viol("turn-regroup-fails", f"template {i}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            if not os.path.exists(f"{scratch}/real-o{i}.uvh5"):
                continue
            g = D.read_uvh5(f"{scratch}/real-o{i}.uvh5")
            idx = [int(np.argmin(np.abs(ctimes - t))) for t in g["times"]]
            for q in idx:
                seen.setdefault(q, []).append(i)
            exp = dict(times=ctimes[idx])
            for n in ("data", "flags", "nsamples"):
                exp[n] = {k: a[idx] for m in made.values() for k, a in m[n].items()}
            mm = D.diff_vis(g, exp, tol=1e-6)
            if mm:
                return result(viol("turn-wrong", f"template {i}: {mm}"), ev, True, st)
        lost = [q for q in range(len(ctimes)) if q not in seen]
        twice = {q: s for q, s in seen.items() if len(s) > 1}
        v = viol("turn-lost" if lost else "turn-twice", f"files of {case['nts']} integrations averaged by {case['avg']}: averaged integrations in no output {lost}, in several {twice}") if lost or twice else None
        return result(v, ev, True, st)

    def shrink(self, case, scratch):
        for key in ("a", "b"):
            for i, j in enumerate(case[key]):
                if j[-1]:
                    c = cp(case)
                    c[key][i][-1] = []
                    yield c
                if j[1]:
                    c = cp(case)
                    c[key][i][1] = 0
                    yield c
        n = len(case["nts"])
        if n > 1:
            yield cp(case, nts=case["nts"][:-1], a=[j for j in case["a"] if j[0] < n - 1], b=[j for j in case["b"] if j[0] < n - 1])
        for k, v in (("nants", 2), ("npol", 1)):
            if case[k] != v:
                yield cp(case, **{k: v})


SCENARIOS = {"regroup": Regroup(), "turn": Turn()}
