"""C06: any history of partial reads on one reader object returns what the file holds."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core
from sim import data as D
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

POLS = {1: ["nn"], 2: ["nn", "ee"], 4: ["nn", "ee", "ne", "en"]}


# ------------------------------------------------------------------ inputs
def build(p, d):
    """Visibility files split in time, written with pyuvdata."""
    rng = random.Random(p["seed"])
    nr = np.random.default_rng(rng.randrange(1 << 30))
    ap = D.grid_antpos(random.Random(p["seed"]), p["nants"], compact=True)
    a = sorted(ap)
    pairs = [(i, j) for i in a for j in a if i <= j and (i != j or p["autos"])]
    keep = [q for q in pairs if rng.random() < p["dens"]] or pairs[:1]
    if p["flip"]:
        keep = [q[::-1] if q[0] != q[1] and rng.random() < .4 else q for q in keep]
    fr = D.freqs_for(p["nf"])
    files, t0 = [], 0
    for i, nt in enumerate(p["nt"]):
        t = D.JD0 + p["start"] + D.DT * (t0 + np.arange(nt))
        t0 += nt
        v = D.Vis(ap, keep, POLS[p["npol"]], t, fr, p["time_major"][i]).fill(nr)
        f = d + f"/in/zen.{t[0]:.5f}.uvh5"
        v.write(f)
        files.append((f, v))
    return files


class Model:
    def __init__(self, files):
        vs = [v for _, v in files]
        self.pairs, self.pols, self.freqs = vs[0].antpairs, vs[0].pols, vs[0].freqs
        self.times = np.concatenate([v.times for v in vs])
        self.lsts = np.concatenate([D.read_uvh5(f)["lsts_of"][v.antpairs[0]] for f, v in files])
        for w in ("data", "flags", "nsamples"):
            setattr(self, w, {k: np.concatenate([getattr(v, w)[k] for v in vs]) for k in vs[0].keys()})

    def part(self, pairs, pols, ti, fi):
        return {w: {(i, j, p): getattr(self, w)[i, j, p][np.ix_(ti, fi)] for i, j in pairs for p in pols} for w in ("data", "flags", "nsamples")}


def selection(rng, m, multi, fast=False):
    """Keyword arguments for read() and the part of the model they name."""
    kw, pairs, pols, ti, fi = {}, list(m.pairs), list(m.pols), list(range(len(m.times))), list(range(len(m.freqs)))
    x = rng.random()
    if x < .6:
        pairs = rng.sample(pairs, rng.randint(1, len(pairs)))
        swap = [q[::-1] if not fast and rng.random() < .3 else q for q in pairs]
        if rng.random() < .5:
            kw["bls"] = swap
        else:
            want = []
            for q, s in zip(pairs, swap):
                for pl in rng.sample(pols, rng.randint(1, len(pols))):
                    want.append(tuple(q) + (pl,) if q == s else tuple(s) + (pl[::-1],))
            if fast:
                kw["bls"] = want
                return kw, None, None, ti, fi, [(i, j, pl) for i, j, pl in want]
            kw["bls"] = want
            have = {(w if w[:2] in m.pairs else (w[1], w[0], w[2][::-1]))[2] for w in want}
            pols = [q for q in pols if q in have]
    if "bls" not in kw or len(kw["bls"][0]) == 2:
        if rng.random() < .35:
            pols = rng.sample(pols, rng.randint(1, len(pols)))
            kw["pols" if fast else "polarizations"] = list(pols)
    if not fast:
        x = rng.random()
        n = len(ti)
        if x < .5:
            i0 = rng.randrange(n)
            i1 = rng.randrange(i0, n)
            h = D.DT / 3
            if x < .18:
                ti = sorted(rng.sample(ti, rng.randint(1, n)))
                kw["times"] = [float(q) for q in m.times[ti]]
            elif x < .28:
                ti = list(range(i0, i1 + 1))
                kw["time_range"] = [float(m.times[i0] - h), float(m.times[i1] + h)]
            elif x < .38:
                ti = sorted(rng.sample(ti, rng.randint(1, n)))
                kw["lsts"] = [float(q) for q in m.lsts[ti]]
            else:
                ti = list(range(i0, i1 + 1))
                w = 2 * np.pi * h
                kw["lst_range"] = [float((m.lsts[i0] - w) % (2 * np.pi)), float((m.lsts[i1] + w) % (2 * np.pi))]
        if rng.random() < .45:
            fi = sorted(rng.sample(fi, rng.randint(1, len(fi)))) if rng.random() < .5 else list(range(*sorted(rng.sample(range(len(fi) + 1), 2))))
            if rng.random() < .5:
                kw["freq_chans"] = list(fi)
            else:
                kw["frequencies"] = [float(q) for q in m.freqs[fi]]
    return kw, pairs, pols, ti, fi, None


def norm(k):
    return min(tuple(k), (k[1], k[0], k[2][::-1])) if k[0] != k[1] else tuple(k)


def check(got, m, pairs, pols, ti, fi, keys=None, meta=True):
    """First difference between returned containers and the model's part."""
    keys = keys if keys is not None else [tuple(q) + (pl,) for q in pairs for pl in pols]
    ti, fi = list(ti), list(fi)
    for w, dc in zip(("data", "flags", "nsamples"), got):
        if {norm(k) for k in dc.keys()} != {norm(k) for k in keys}:
            return f"{w} holds {sorted(dc.keys())[:8]}, expected {sorted(keys)[:8]}"
        if meta:
            if len(dc.times) != len(ti) or not np.allclose(dc.times, m.times[ti], rtol=0, atol=1e-9):
                return f"{w}.times is {np.asarray(dc.times).tolist()}, expected {m.times[ti].tolist()}"
            if len(dc.freqs) != len(fi) or not np.allclose(dc.freqs, m.freqs[fi], rtol=0, atol=1):
                return f"{w}.freqs has {len(dc.freqs)} channels, expected {len(fi)} ({np.asarray(dc.freqs).tolist()[:4]})"
            if dc.lsts is not None and (len(dc.lsts) != len(ti) or np.abs(np.angle(np.exp(1j * (np.asarray(dc.lsts) - m.lsts[ti])))).max() > 1e-7):
                return f"{w}.lsts is {np.asarray(dc.lsts).tolist()}, expected {m.lsts[ti].tolist()}"
            if set(dc.pols()) - set(m.pols) or {k[2] for k in keys} - set(dc.pols()):
                return f"{w}.pols() is {dc.pols()}"
        for k in keys:
            e = getattr(m, w)[k][np.ix_(ti, fi)]
            g = np.asarray(dc[k])
            if g.shape != e.shape:
                return f"{w}{k} has shape {g.shape}, expected {e.shape}"
            if not np.array_equal(g.astype(e.dtype), e):
                bad = np.argwhere(g.astype(e.dtype) != e)[0].tolist()
                return f"{w}{k} differs from the file at {bad}"
            if k[0] != k[1]:
                g = np.asarray(dc[k[1], k[0], k[2][::-1]])
                if not np.array_equal(g.astype(e.dtype), np.conj(e) if w == "data" else e):
                    return f"{w}{(k[1], k[0], k[2][::-1])} is not the conjugate of {k}"
    return None


# ------------------------------------------------------------------ jobs
def history(files, m, ops):
    """Performs the operations on one reader object; returns (problems, outcomes)."""
    from hera_cal import io
    reg = core.region(0).s
    paths = [f for f, _ in files]
    multi = len(paths) > 1
    outcomes, kept = [], []
    hd, its = None, {}

    def problem(k, op, msg):
        return f"step {k} ({op}): {msg}"
    for k, (op, s) in enumerate(ops):
        rng = random.Random(s)
        before = reg.nfired
        try:
            if hd is None:
                hd = io.HERAData(paths if multi else paths[0])
            if op == "read":
                kw, pairs, pols, ti, fi, _ = selection(rng, m, multi)
                if multi and any(x in kw for x in ("times", "time_range", "lsts", "lst_range")):
                    got = io.partial_time_io(hd, **kw)
                    op = "partial_time_io"
                else:
                    got = hd.read(**kw)
                r = check(got, m, pairs, pols, ti, fi)
                if r:
                    return problem(k, f"{op} {kw}", r), outcomes
                if rng.random() < .4:
                    kept.append((k, kw, got, pairs, pols, ti, fi))
            elif op == "fast":
                fr = io.HERADataFastReader(paths if multi else paths[0])
                kw, pairs, pols, ti, fi, keys = selection(rng, m, multi, fast=True)
                thr = rng.choice([0.002, 1.1])
                got = fr.read(full_read_thresh=thr, **kw)
                r = check(got, m, pairs, pols, ti, fi, keys)
                if r:
                    return problem(k, f"fast reader {kw}, threshold {thr}", r), outcomes
            elif op == "update":
                if hd.data_array is None or any(o[1] != "ok" for o in outcomes):
                    hd.read()
                dc, fl, ns = hd.build_datacontainers()
                for key in list(dc.keys()):
                    dc[key] = dc[key] * 3 + 1
                    fl[key] = ~fl[key]
                hd.update(data=dc, flags=fl)
            elif op in ("bls", "freqs", "times", "reds", "mix"):
                it, kws = [], []
                for name in ([op] if op != "mix" else ["bls", "times"]):
                    n = rng.choice([1, 1, 2, 3, 5, 50])
                    if name in ("bls", "reds"):
                        q = dict(Nbls=n)
                        keys = [tuple(a) + (pl,) for a in m.pairs for pl in m.pols]
                        if name == "reds":
                            q["chunk_by_redundant_group"] = True
                        elif rng.random() < .3:
                            keys = rng.sample(keys, rng.randint(1, len(keys)))
                            q["bls"] = list(keys)
                        if rng.random() < .3 and any(a[0] != a[1] for a in keys):
                            q["include_autos"] = False
                            keys = [a for a in keys if a[0] != a[1]]
                        fi = list(range(len(m.freqs)))
                        if rng.random() < .3:
                            fi = sorted(rng.sample(fi, rng.randint(1, len(fi))))
                            q["frequencies"] = [float(x) for x in m.freqs[fi]]
                        want = {(norm(a), t, f) for a in keys for t in range(len(m.times)) for f in fi}
                        it.append(hd.iterate_over_bls(**q))
                    elif name == "freqs":
                        q = dict(Nchans=n)
                        fi = list(range(len(m.freqs)))
                        if rng.random() < .3:
                            fi = sorted(rng.sample(fi, rng.randint(1, len(fi))))
                            q["freqs"] = [float(x) for x in m.freqs[fi]]
                        want = {(norm(tuple(a) + (pl,)), t, f) for a in m.pairs for pl in m.pols for t in range(len(m.times)) for f in fi}
                        it.append(hd.iterate_over_freqs(**q))
                    else:
                        q = dict(Nints=n)
                        ti = list(range(len(m.times)))
                        if not multi and rng.random() < .3:
                            ti = sorted(rng.sample(ti, rng.randint(1, len(ti))))
                            q["times"] = [float(x) for x in m.times[ti]]
                        want = {(norm(tuple(a) + (pl,)), t, f) for a in m.pairs for pl in m.pols for t in ti for f in range(len(m.freqs))}
                        if multi:
                            continue      # times absent from one of several files cannot be selected by read()
                        it.append(hd.iterate_over_times(**q))
                    kws.append((name, q, want))
                seen = [{} for _ in it]
                live = list(range(len(it)))
                steps = 0
                while live:
                    w = rng.choice(live)
                    try:
                        got = next(it[w])
                    except StopIteration:
                        live.remove(w)
                        continue
                    steps += 1
                    if steps > 3000:
                        return problem(k, str(kws[w][:2]), "the iteration does not end"), outcomes
                    ti = [int(np.argmin(np.abs(m.times - t))) for t in got[0].times]
                    fi = [int(np.argmin(np.abs(m.freqs - f))) for f in got[0].freqs]
                    keys = [x if x in m.data else (x[1], x[0], x[2][::-1]) for x in got[0].keys()]
                    if any(x not in m.data for x in keys):
                        return problem(k, str(kws[w][:2]), f"yielded {keys}, which the file does not hold"), outcomes
                    r = check(got, m, None, None, ti, fi, keys)
                    if r:
                        return problem(k, f"iteration {kws[w][:2]} chunk {steps}", r), outcomes
                    for x in keys:
                        for t in ti:
                            for f in fi:
                                e = (norm(x), t, f)
                                seen[w][e] = seen[w].get(e, 0) + 1
                for w in range(len(it)):
                    name, q, want = kws[w]
                    missing = want - set(seen[w])
                    if missing:
                        return problem(k, f"iteration {name} {q}", f"never yielded {len(missing)} elements, e.g. {sorted(missing)[0]}"), outcomes
                    # 3-tuples of one chunk select all of its antenna pairs and polarizations (documented)
                    extra = [e for e, c in seen[w].items() if e not in want] if name != "bls" or "bls" not in q else []
                    if extra:
                        return problem(k, f"iteration {name} {q}", f"yielded {len(extra)} elements that were not asked for, e.g. {sorted(extra)[0]}"), outcomes
                    dup = [e for e, c in seen[w].items() if c > 1 and e in want] if name not in ("bls", "reds") or "bls" not in q and len(m.pols) == 1 else []
                    if dup:
                        return problem(k, f"iteration {name} {q}", f"yielded {len(dup)} elements more than once, e.g. {sorted(dup)[0]}"), outcomes
            outcomes.append((op, "ok"))
        except Exception as e:
            if reg.nfired == before:
                import traceback
                return problem(k, op, f"failed without a fault: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"), outcomes
            outcomes.append((op, type(e).__name__))
    for k, kw, got, pairs, pols, ti, fi in kept:
        r = check(got, m, pairs, pols, ti, fi)
        if r:
            return f"what step {k} (read {kw}) returned was changed by later steps: {r}", outcomes
    return None, outcomes


class Reads(Scenario):
    lists = ("ops", "faults")
    minlen = {"ops": 1}

    def gen(self, rng):
        nfiles = rng.choice([1, 1, 1, 2, 3])
        p = dict(seed=rng.randrange(1 << 28), nants=rng.randint(2, 4), npol=rng.choice([1, 2, 4]), nf=rng.randint(1, 7), nt=[rng.randint(1, 5) for _ in range(nfiles)],
                 autos=rng.random() < .7, dens=rng.choice([1, 1, .6]), flip=rng.random() < .4, start=rng.choice([.3, .3, .45]))
        tm = rng.random() < .5
        p["time_major"] = [tm] * nfiles
        ops = []
        for _ in range(rng.randint(2, 7)):
            ops.append([rng.choice(["read"] * 6 + ["update", "fast", "bls", "bls", "freqs", "times", "reds", "mix"]), rng.randrange(1 << 28)])
        faults = pick_faults(rng, rng.choice([1, 2]), ["err", "err", "short"], ["read", "open_r"]) if rng.random() < .35 else []
        return dict(p=p, ops=ops, faults=faults)

    def execute(self, case, d):
        st = Stats()
        os.makedirs(d + "/in")
        files = build(case["p"], d)
        m = Model(files)
        plan = []
        if case["faults"]:
            r0 = core.run_job(history, files, m, case["ops"])
            st.job(r0)
            if r0.status == "ok" and not r0.value[0]:
                plan = resolve(case["faults"], r0.ops())
        r = core.run_job(history, files, m, case["ops"], plan=plan)
        st.job(r)
        st.fired(plan, r)
        v = None
        if r.status == "ok":
            if r.value[0]:
                v = viol("partial_read", r.value[0])
            for op, o in r.value[1]:
                st.add("probe:" + op + ("" if o == "ok" else "_failed"))
        elif r.status == "signal" and r.fired:
            st.add("probe:library_died")
        else:
            v = viol("reader_died", r.brief() + "\n" + r.tb)
        return result(v, (case, r.status, r.value, r.nops, r.fired), len(case["ops"]) > 1, st, summary={"files": len(files), "outcomes": r.value[1] if r.value else r.brief()},
                      trace={"plan": plan, "log_tail": r.log.splitlines()[-30:]})

    def shrink(self, case, d):
        yield from super().shrink(case, d)
        for k, alts in (("nants", [2]), ("npol", [1]), ("nf", [1, 2]), ("flip", [False]), ("autos", [False]), ("dens", [1])):
            for a in alts:
                if case["p"][k] != a:
                    c = cp(case)
                    c["p"][k] = a
                    yield c
        for i in range(len(case["p"]["nt"])):
            if case["p"]["nt"][i] > 1:
                c = cp(case)
                c["p"]["nt"][i] -= 1
                yield c
            if len(case["p"]["nt"]) > 1:
                c = cp(case)
                del c["p"]["nt"][i], c["p"]["time_major"][i]
                yield c


# ------------------------------------------------------------------ gains
def cal_history(files, cals, ops):
    from hera_cal import io
    reg = core.region(0).s
    c0 = cals[0]
    times = np.concatenate([c.times for c in cals])
    full = {w: {k: np.concatenate([getattr(c, w)[k] for c in cals]) for k in getattr(c0, w)} for w in ("gains", "flags", "quals", "total_qual")}
    hc, outcomes, kept = None, [], []

    def cmp(got, ants, pols, ti, fi):
        for w, g in zip(("gains", "flags", "quals", "total_qual"), got):
            keys = [(a, q) for a in ants for q in pols] if w != "total_qual" else list(pols)
            if g is None:
                if w == "total_qual":
                    continue
                return f"{w} is None"
            if set(g) != set(keys):
                return f"{w} holds {sorted(g)[:6]}, expected {sorted(keys)[:6]}"
            for key in keys:
                e = full[w][key][np.ix_(ti, fi)]
                if g[key].shape != e.shape or not np.array_equal(g[key].astype(e.dtype), e):
                    return f"{w}[{key}] differs from the file (shape {g[key].shape}, expected {e.shape})"
        return None
    for k, (op, s) in enumerate(ops):
        rng = random.Random(s)
        before = reg.nfired
        try:
            if hc is None:
                hc = io.HERACal(files if len(files) > 1 else files[0])
            ants, pols, ti, fi, kw = list(c0.ants), list(c0.pols), list(range(len(times))), list(range(len(c0.freqs))), {}
            if op == "update":
                g, f, q, t = hc.read()
                hc.update(gains={a: x * 2 for a, x in g.items()}, flags={a: ~x for a, x in f.items()})
            else:
                if rng.random() < .5:
                    ants = sorted(rng.sample(ants, rng.randint(1, len(ants))))
                    kw["antenna_nums"] = list(ants) + ([9999] if rng.random() < .2 else [])
                if rng.random() < .5:
                    fi = list(range(*sorted(rng.sample(range(len(fi) + 1), 2)))) if rng.random() < .7 else sorted(rng.sample(fi, rng.randint(1, len(fi))))
                    if rng.random() < .5:
                        kw["freq_chans"] = list(fi)
                    else:
                        kw["frequencies"] = [float(x) for x in c0.freqs[fi]]
                if rng.random() < .4:
                    ti = sorted(rng.sample(ti, rng.randint(1, len(ti))))
                    kw["times"] = [float(x) for x in times[ti]]
                if rng.random() < .4:
                    pols = rng.sample(pols, rng.randint(1, len(pols)))
                    kw["pols"] = list(pols)
                got = hc.read(**kw)
                r = cmp(got, ants, pols, ti, fi)
                if r:
                    return f"step {k} (read {kw}): {r}", outcomes
                if len(hc.times) != len(ti) or not np.allclose(hc.times, times[ti], rtol=0, atol=1e-9) or len(hc.freqs) != len(fi) or not np.allclose(hc.freqs, c0.freqs[fi]) \
                        or set(hc.ants) != {(a, q) for a in ants for q in pols}:
                    return f"step {k} (read {kw}): metadata of the object do not match the selection", outcomes
                kept.append((k, kw, got, ants, pols, ti, fi))
            outcomes.append((op, "ok"))
        except Exception as e:
            if reg.nfired == before:
                import traceback
                return f"step {k} ({op} {kw if op != 'update' else ''}) failed without a fault: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", outcomes
            outcomes.append((op, type(e).__name__))
    for k, kw, got, ants, pols, ti, fi in kept:
        r = cmp(got, ants, pols, ti, fi)
        if r:
            return f"what step {k} (read {kw}) returned was changed by later steps: {r}", outcomes
    return None, outcomes


class Gains(Scenario):
    lists = ("ops", "faults")
    minlen = {"ops": 1}

    def gen(self, rng):
        n = rng.choice([1, 1, 2, 3])
        p = dict(seed=rng.randrange(1 << 28), nants=rng.randint(1, 4), npol=rng.choice([1, 2]), nf=rng.randint(1, 6), nt=[rng.randint(1, 4) for _ in range(n)])
        ops = [[rng.choice(["read", "read", "read", "update"]), rng.randrange(1 << 28)] for _ in range(rng.randint(2, 5))]
        faults = pick_faults(rng, 1, ["err", "err", "short"], ["read", "open_r"]) if rng.random() < .3 else []
        return dict(p=p, ops=ops, faults=faults)

    def execute(self, case, d):
        st = Stats()
        p = case["p"]
        os.makedirs(d + "/in")
        ap = D.grid_antpos(random.Random(p["seed"]), max(p["nants"], 2), compact=True)
        nr = np.random.default_rng(p["seed"])
        files, cals, t0 = [], [], 0
        for i, nt in enumerate(p["nt"]):
            t = D.JD0 + .3 + D.DT * (t0 + np.arange(nt))
            t0 += nt
            c = D.Cal(ap, sorted(ap)[:p["nants"]], ["Jnn", "Jee"][:p["npol"]], t, D.freqs_for(p["nf"])).fill(nr)
            c.write(d + f"/in/zen.{t[0]:.5f}.calfits")
            files.append(d + f"/in/zen.{t[0]:.5f}.calfits")
            cals.append(c)
        plan = []
        if case["faults"]:
            r0 = core.run_job(cal_history, files, cals, case["ops"])
            if r0.status == "ok" and not r0.value[0]:
                plan = resolve(case["faults"], r0.ops())
        r = core.run_job(cal_history, files, cals, case["ops"], plan=plan)
        st.job(r)
        st.fired(plan, r)
        v = None
        if r.status == "ok":
            if r.value[0]:
                v = viol("partial_cal_read", r.value[0])
            for op, o in r.value[1]:
                st.add("probe:cal_" + op + ("" if o == "ok" else "_failed"))
        else:
            v = viol("cal_reader_died", r.brief() + "\n" + r.tb)
        return result(v, (case, r.status, r.value, r.nops, r.fired), True, st, summary={"files": len(files), "outcomes": r.value[1] if r.value else r.brief()}, trace={"plan": plan})


SCENARIOS = {"reads": Reads(), "gains": Gains()}
