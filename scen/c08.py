"""C08: work divided among jobs covers everything exactly once."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core, data as D, peer
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

FAULTS = ["crash", "crash_after", "torn", "err", "full"]


def norm(ap):
    return (min(ap[:2]), max(ap[:2])) + tuple(ap[2:])


def some_vis(rng, nr, nants, pols, times, nf, order_seed=None, extra_conj=True):
    antpos = D.grid_antpos(rng, nants, compact=True)
    ants = sorted(antpos)
    prs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
    return antpos, prs


def relayout(antpos, prs, pols, times, nf, seed):
    """The same baselines in another order and layout."""
    r = random.Random(seed)
    p = list(prs)
    if r.random() < .6:
        r.shuffle(p)
    return D.Vis(antpos, p, pols, times, D.freqs_for(nf), time_major=r.random() < .6)


def share(fname, filelist):
    from hera_cal import io
    return [tuple(int(q) for q in b) for b in io.baselines_from_filelist_position(fname, filelist)]


def chunk_job(files, start, out, size, typ, pols, spw, clobber):
    from hera_cal import chunker
    chunker.chunk_files(files, start, out, size, type=typ, polarizations=pols, spw_range=spw, clobber=clobber)


def groups_job(reds, size, times):
    from hera_cal import utils
    return [[[tuple(b) for b in c] for c in utils.chunk_baselines_by_redundant_groups(reds, size)] for _ in range(times)]


def spw_job(inp, out, ranges, clobber):
    from hera_cal import utils
    utils.select_spw_ranges(inp, out, spw_ranges=ranges, clobber=clobber)


def finish(st, ev, run, args_of, where, faults, seed, listseed=0):
    """Attempts interrupted by the faults, then one that is not."""
    r = None
    if faults:
        r0 = peer.run_job(0, run, *args_of("probe", False), seed=seed)
        st.job(r0)
        if r0.status != "ok":
            return r0
        for f in faults:
            plan = resolve([f], r0.ops())
            r1 = peer.run_job(where, run, *args_of("real", True), plan=plan, seed=seed)
            st.job(r1)
            st.fired(plan, r1)
            ev.append(("attempt", r1.status, r1.exc_type, r1.fired))
    r = peer.run_job(where, run, *args_of("real", True), seed=seed, listseed=listseed)
    st.job(r)
    st.add("probe:other_interpreter", int(bool(where)))
    ev.append((where, r.status, r.exc_type, r.nops))
    return r


class Division(Scenario):
    lists = ("jobs",)
    minlen = {"jobs": 1}

    def gen(self, rng):
        nfiles = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 11])
        order = list(range(nfiles))
        rng.shuffle(order)
        return {"seed": rng.randrange(1 << 30), "nants": rng.randint(2, 6), "nfiles": nfiles, "autos": rng.random() < .7, "pols": rng.choice([["nn"], ["nn", "ee"], ["nn", "ee", "ne", "en"]]),
                "nt": rng.choice([1, 1, 2]), "jobs": [[i, rng.randrange(2), rng.randrange(3) == 0] for i in order]}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos, prs = some_vis(rng, nr, case["nants"], None, None, 1)
        if not case["autos"]:
            prs = [p for p in prs if p[0] != p[1]]
        files = []
        for i in range(case["nfiles"]):
            v = relayout(antpos, prs, case["pols"], D.times_for(D.JD0, .3 + i * case["nt"] * D.DT, case["nt"]), 2, case["seed"] + i).fill(nr)
            files.append(v.write(f"{scratch}/z.{i:03d}.uvh5"))
        got = {}
        for i, where, again in case["jobs"]:
            for _ in range(1 + again):
                r = peer.run_job(where, share, files[i], files, seed=i)
                st.job(r)
                ev.append((i, where, r.status, r.value if r.status == "ok" else r.exc_type))
                if r.status != "ok":
                    return result(viol("division-fails", f"file {i} of {case['nfiles']}, {len(prs)} baselines: {r.brief()}\n{r.tb[-1200:]}"), ev, True, st)
                if i in got and got[i] != r.value:
                    return result(viol("division-unstable", f"file {i}: two processes computed different shares {got[i]} and {r.value}"), ev, True, st)
                got[i] = r.value
                st.add("probe:empty_share", int(not r.value))
        v = None
        if len(got) == case["nfiles"]:
            counts = {}
            for i in sorted(got):
                for b in got[i]:
                    counts[norm(b)] = counts.get(norm(b), 0) + 1
            want = {norm(b) for b in prs}
            miss, twice, alien = sorted(want - set(counts)), sorted(b for b in counts if counts[b] > 1), sorted(set(counts) - want)
            if miss or twice or alien:
                v = viol("division-wrong", f"{len(prs)} baselines over {case['nfiles']} jobs: unassigned {miss[:5]}, assigned twice {twice[:5]}, unknown {alien[:5]}")
        return result(v, ev, len(got) > 1, st, summary={"baselines": len(prs), "files": case["nfiles"]})

    def shrink(self, case, scratch):
        for k, lo in (("nants", 2), ("nt", 1)):
            if case[k] > lo:
                yield cp(case, **{k: case[k] - 1})
        if len(case["pols"]) > 1:
            yield cp(case, pols=case["pols"][:1])
        n = case["nfiles"]
        if n > 1:
            yield cp(case, nfiles=n - 1, jobs=[j for j in case["jobs"] if j[0] < n - 1])


class Chunks(Scenario):
    """All chunk jobs of a list of files; together they hold everything."""

    def gen(self, rng):
        nfiles = rng.randint(1, 6)
        size = rng.randint(1, 4)
        njobs = -(-nfiles // size)
        order = list(range(njobs))
        rng.shuffle(order)
        nf = rng.randint(2, 6)
        spw = None
        if rng.random() < .5:
            a = rng.randrange(nf)
            spw = [a, rng.randint(a + 1, nf)]
        typ = rng.choice(["data", "data", "gains"])
        pols = rng.choice([["nn"], ["ee", "nn"], ["nn", "ee"], ["nn", "ee", "ne", "en"]]) if typ == "data" else rng.choice([["Jnn"], ["Jnn", "Jee"], ["Jee", "Jnn"]])
        sel = None
        if rng.random() < .4:
            sel = rng.sample(pols, rng.randint(1, len(pols)))
            if typ == "gains":
                sel = [p[1:] for p in sel]
        return {"seed": rng.randrange(1 << 30), "typ": typ, "nants": rng.randint(2, 4), "nts": [rng.choice([1, 1, 2, 3]) for _ in range(nfiles)] if rng.random() < .5 else [rng.randint(1, 3)] * nfiles,
                "nf": nf, "size": size, "spw": spw, "pols": pols, "sel": sel, "gap": rng.random() < .3,
                "jobs": [[j, rng.randrange(2), rng.randrange(1 << 20), pick_faults(rng, rng.choice([0, 0, 0, 1, 2]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for j in order]}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos, prs = some_vis(rng, nr, case["nants"], None, None, 1)
        vis, files, t = [], [], .3
        isdata = case["typ"] == "data"
        for i, nt in enumerate(case["nts"]):
            times = D.times_for(D.JD0, t, nt)
            t += D.DT * nt + (D.DT * 3 if case["gap"] and isdata and i % 2 else 0)
            if isdata:
                v = relayout(antpos, prs, case["pols"], times, case["nf"], case["seed"])
            else:
                v = D.Cal(antpos, sorted(antpos), case["pols"], times, D.freqs_for(case["nf"]))
            v.fill(nr)
            vis.append(v)
            files.append(v.write(f"{scratch}/zen.{i:02d}.x"))
        got = {}
        size, n = case["size"], len(files)
        for j, where, lseed, faults in case["jobs"]:
            lst = list(files)
            random.Random(lseed).shuffle(lst)

            def args(kind, clob):
                return (lst, files[j * size], f"{scratch}/{kind}{j}.out", size, case["typ"], case["sel"], case["spw"], clob)
            r = finish(st, ev, chunk_job, args, where, faults, j)
            if r.status != "ok":
                return result(viol("chunk-fails", f"chunk {j} of {n} files ({case['typ']}, integrations {case['nts']}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            mine = vis[j * size:(j + 1) * size]
            m = self.check(case, f"{scratch}/real{j}.out", mine, isdata)
            if m:
                return result(viol("chunk-wrong", f"chunk {j} (files {j * size}..{j * size + len(mine) - 1}, listed in order {[files.index(f) for f in lst]}): {m}"), ev, True, st)
            got[j] = 1
        return result(None, ev, len(case["jobs"]) > 0, st, summary={"files": n, "chunk": size, "type": case["typ"]})

    def check(self, case, out, mine, isdata):
        lo, hi = case["spw"] or (0, case["nf"])
        try:
            g = D.read_uvh5(out) if isdata else D.read_calfits(out)
        except Exception as e:
            return f"the output cannot be read: {type(e).__name__}: {e}"
        times = np.concatenate([v.times for v in mine])
        sel = case["sel"] if isdata else ["J" + p for p in case["sel"]] if case["sel"] else None
        names = ("data", "flags", "nsamples") if isdata else ("gains", "flags", "quals")
        exp = dict(times=times, freqs=mine[0].freqs[lo:hi])
        for w in names:
            exp[w] = {k: np.concatenate([getattr(v, w)[k] for v in mine])[:, lo:hi] for k in mine[0].keys() if sel is None or k[-1] in sel}
        if isdata:
            m = D.diff_vis(g, exp, tol=1e-6)
            if not m:
                for ap, t in g["times_of"].items():
                    if len(t) != len(times):
                        return f"baseline {ap} has {len(t)} integrations of {len(times)}"
            return m
        if not np.all(np.diff(g["times"]) > 0):
            return f"times out of order: {g['times'].tolist()}"
        return D.diff_cal(g, exp, tol=1e-6, what=names)

    def shrink(self, case, scratch):
        if len(case["jobs"]) > 1:
            for i in range(len(case["jobs"])):
                yield cp(case, jobs=case["jobs"][:i] + case["jobs"][i + 1:])
        for i, j in enumerate(case["jobs"]):
            for a in ([j[0], 0] + j[2:], j[:3] + [[]]):
                if a != j:
                    yield cp(case, jobs=case["jobs"][:i] + [a] + case["jobs"][i + 1:])
        for k, v in (("spw", None), ("sel", None), ("gap", False), ("nants", 2), ("nts", [1] * len(case["nts"]))):
            if case[k] != v:
                yield cp(case, **{k: v})


class Groups(Scenario):
    def gen(self, rng):
        ng = rng.randint(0, 9)
        return {"seed": rng.randrange(1 << 30), "sizes": [rng.choice([1, 1, 2, 3, 4, 6]) for _ in range(ng)], "max": rng.randint(1, 8), "where": rng.randrange(2), "times": rng.choice([1, 2, 3])}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng = random.Random(case["seed"])
        n, reds = 0, []
        for s in case["sizes"]:
            reds.append([(n + i, n + i + 50, rng.choice(["nn", "ee"])) for i in range(s)])
            n += s
        r = peer.run_job(case["where"], groups_job, [list(g) for g in reds], case["max"], case["times"])
        st.job(r)
        ev.append((r.status, r.exc_type, r.value))
        if r.status != "ok":
            return result(viol("groups-fails", f"groups of {case['sizes']}, at most {case['max']}: {r.brief()}"), ev, True, st)
        for c, chunks in enumerate(r.value):
            flat = [tuple(b) for ch in chunks for b in ch]
            want = [b for g in reds for b in g]
            if sorted(flat) != sorted(want):
                return result(viol("groups-wrong", f"call {c + 1}: groups of {case['sizes']}, at most {case['max']} baselines: chunks hold {len(flat)} baselines of {len(want)}, "
                                   f"missing {sorted(set(want) - set(flat))[:3]}, repeated {sorted({b for b in flat if flat.count(b) > 1})[:3]}"), ev, True, st)
            for g in reds:
                if len({i for i, ch in enumerate(chunks) for b in ch if b in g}) > 1:
                    return result(viol("groups-split", f"redundant group {g[:2]}... is split over chunks"), ev, True, st)
            big = [len(ch) for ch in chunks if len(ch) > case["max"] and not any(len(g) == len(ch) for g in reds)]
            if big:
                return result(viol("groups-big", f"chunk of {big[0]} baselines, at most {case['max']} allowed (groups of {case['sizes']})"), ev, True, st)
        return result(None, ev, len(reds) > 1, st)

    lists = ("sizes",)


class Spw(Scenario):
    def gen(self, rng):
        nf = rng.randint(1, 12)
        cuts = sorted(rng.sample(range(nf + 1), min(nf + 1, 2 * rng.randint(1, 3)) // 2 * 2)) if nf > 1 else [0, 1]
        ranges = [[cuts[i], cuts[i + 1]] for i in range(0, len(cuts) - 1, 2)] if rng.random() < .8 else None
        if ranges and rng.random() < .2:
            ranges = ranges[::-1]
        return {"seed": rng.randrange(1 << 30), "nf": nf, "ranges": ranges, "nants": rng.randint(2, 3), "nt": rng.randint(1, 3), "npol": rng.choice([1, 2, 4]), "where": rng.randrange(2),
                "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ["any", "write", "read", "lastwrite"])}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos, prs = some_vis(rng, nr, case["nants"], None, None, 1)
        v = relayout(antpos, prs, ["nn", "ee", "ne", "en"][:case["npol"]], D.times_for(D.JD0, .3, case["nt"]), case["nf"], case["seed"]).fill(nr)
        v.write(scratch + "/in.uvh5")

        def args(kind, clob):
            return scratch + "/in.uvh5", f"{scratch}/{kind}.uvh5", case["ranges"], clob
        r = finish(st, ev, spw_job, args, case["where"], case["faults"], 3)
        if r.status != "ok":
            return result(viol("spw-fails", f"windows {case['ranges']} of {case['nf']} channels: {r.brief()}\n{r.tb[-1200:]}"), ev, True, st)
        ch = sorted({c for a, b in case["ranges"] or [[0, case["nf"]]] for c in range(a, b)})
        try:
            g = D.read_uvh5(scratch + "/real.uvh5")
            m = D.diff_vis(g, dict(times=v.times, freqs=v.freqs[ch], **{w: {k: a[:, ch] for k, a in getattr(v, w).items()} for w in ("data", "flags", "nsamples")}), tol=1e-6)
        except Exception as e:
            m = f"the output cannot be read: {type(e).__name__}: {e}"
        return result(viol("spw-wrong", f"windows {case['ranges']} of {case['nf']} channels: {m}") if m else None, ev, True, st)


SCENARIOS = {"division": Division(), "chunks": Chunks(), "groups": Groups(), "spw": Spw()}
