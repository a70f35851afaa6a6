"""C15: what one job writes, the next job reads back unchanged."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import data as D, peer
from sim.base import Scenario, Stats, cp, pick_faults, result, viol
from .c08 import FAULTS, finish

ANY = ["any", "write", "read", "lastwrite", "firstwrite"]


# ------------------------------------------------------------------ jobs: calibration solutions
def cal_write(how, src, out, m, clobber):
    from hera_cal import io
    if how == "write_cal":
        io.write_cal(os.path.basename(out), m["gains"], m["freqs"], m["times"], antpos=m["antpos"], flags=m["flags"], quality=m["quals"], total_qual=m["total"],
                     outdir=os.path.dirname(out), overwrite=clobber, return_uvc=False, gain_convention=m["conv"], zero_check=m["zc"], integration_time=D.INT_S,
                     history="hist")
    elif how == "update_cal":
        io.update_cal(src, out, gains=m["gains"], flags=m["flags"], quals=m["quals"], clobber=clobber, add_to_history="x")
    else:
        hc = io.HERACal(src)
        hc.read(freq_chans=m.get("chans"))
        hc.update(gains=m["gains"], flags=m["flags"], quals=m["quals"], total_qual=m["total"])
        hc.write(out, clobber=clobber, spoof_missing_channels=how == "spoof")


def plain(d):
    return None if d is None else {(int(k[0]), str(k[1])) if isinstance(k, tuple) else str(k): np.array(v) for k, v in d.items()}


def cal_read(how, paths, total, conv="divide"):
    from hera_cal import io
    if how == "fast":
        r = io.read_hera_calfits(paths, read_flags=True, read_quality=True, read_tot_quality=total, check=conv == "divide")
        return dict(gains=plain(r["gains"]), flags=plain(r["flags"]), quals=plain(r["quality"]), total=plain(r.get("total_quality")), times=np.array(r["info"]["times"]),
                    freqs=np.array(r["info"]["freqs"]), conv=r["info"].get("gain_convention"))
    if how == "load":
        gains, flags = io.load_cal(paths if len(paths) > 1 else paths[0])
        return dict(gains=plain(gains), flags=plain(flags))
    hc = io.HERACal(paths if len(paths) > 1 else paths[0])
    g, f, q, t = hc.read()
    return dict(gains=plain(g), flags=plain(f), quals=plain(q), total=plain(t), times=np.array(hc.times), freqs=np.array(hc.freqs), conv=hc.gain_convention, scale=hc.gain_scale)


def combine(files, out, bc, clobber):
    from hera_cal import utils
    utils.combine_calfits(files, os.path.basename(out), outdir=os.path.dirname(out), overwrite=clobber, broadcast_flags=bc, verbose=False)


def multiply(f1, f2, out, div, clobber):
    from hera_cal import abscal
    abscal.multiply_gains(f1, f2, out, clobber=clobber, divide_gains=div)


def eq(name, got, exp, tol=1e-6):
    """First difference of two dictionaries of arrays."""
    if (got is None) != (exp is None):
        return f"{name}: read {'nothing' if got is None else 'values'}, wrote {'nothing' if exp is None else 'values'}"
    if exp is None:
        return None
    if set(got) != set(exp):
        return f"{name}: missing {sorted(set(exp) - set(got), key=str)[:4]}, unexpected {sorted(set(got) - set(exp), key=str)[:4]}"
    for k in sorted(exp, key=str):
        g, e = np.asarray(got[k]), np.asarray(exp[k])
        if g.shape != e.shape:
            return f"{name}[{k}]: shape {g.shape}, wrote {e.shape}"
        ok = np.array_equal(g, e) if e.dtype.kind in "bUSOi" else np.allclose(g, e, rtol=tol, atol=tol * 1e-3, equal_nan=True)
        if not ok:
            bad = np.argwhere(~(np.isclose(g, e, rtol=tol, atol=tol * 1e-3, equal_nan=True) if e.dtype.kind in "fc" else g == e))
            ix = tuple(int(q) for q in bad[0])
            return f"{name}[{k}] at {ix}: read {g[ix]}, wrote {e[ix]}"
    return None


def cal_diff(got, exp):
    for w in ("gains", "flags", "quals", "total"):
        if w in got and w in exp:
            m = eq(w, got[w], exp[w])
            if m:
                return m
    for w, tol in (("times", 2e-8), ("freqs", 1.)):
        if w in got and w in exp:
            a, b = np.asarray(got[w], float).ravel(), np.asarray(exp[w], float).ravel()
            if a.shape != b.shape or not np.allclose(a, b, rtol=0, atol=tol):
                return f"{w}: read {a.tolist()}, wrote {b.tolist()}"
    if got.get("conv") is not None and exp.get("conv") is not None and str(got["conv"]).lower() != exp["conv"]:
        return f"gain convention: read {got['conv']}, wrote {exp['conv']}"
    return None


def dirty(nr, gains, flags, p):
    """Values that solvers do leave in gains: zeros anywhere, non-finite ones where flagged."""
    for k in sorted(gains):
        g = gains[k]
        z = nr.random(g.shape) < p
        if nr.random() < .5:
            z &= flags[k]
        g[z] = 0
        n = (nr.random(g.shape) < p) & flags[k]
        g[n] = nr.choice([np.nan, np.inf])


class CalRound(Scenario):
    """Solutions written by one job in any of four ways, read by another in any of three."""

    def gen(self, rng):
        how = rng.choice(["write_cal", "write_cal", "write_cal", "update_cal", "heracal", "spoof"])
        return {"seed": rng.randrange(1 << 30), "how": how, "read": rng.choice(["heracal", "heracal", "fast", "load"]), "nants": rng.randint(1, 6), "pols": rng.choice([["Jnn"], ["Jee"], ["Jnn", "Jee"], ["Jee", "Jnn"]]),
                "nt": rng.choice([1, 1, 2, 3, 5]), "nf": rng.choice([2, 3, 4, 7, 10]), "drop": rng.choice([0, 0, 0, 1, 2]), "flags": rng.random() < .8, "quals": rng.random() < .6,
                "total": rng.random() < .6, "zc": rng.random() < .75, "dirty": rng.choice([0, 0, .1]), "conv": rng.choice(["divide", "divide", "multiply"]), "sub": rng.choice([0, 0, .4]),
                "old": rng.random() < .4, "where": [rng.randrange(2), rng.randrange(2)], "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ANY)}

    lists = ("faults",)
    simple = {"dirty": 0, "drop": 0, "sub": 0, "zc": True, "total": False, "old": False, "conv": "divide"}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        how = case["how"]
        antpos = D.grid_antpos(rng, case["nants"])
        ants = sorted(antpos)
        order = list(ants)
        if rng.random() < .4:
            rng.shuffle(order)
        t, f = D.times_for(D.JD0, .3, case["nt"]), D.freqs_for(case["nf"])
        new = D.Cal(antpos, order, case["pols"], t, f, case["conv"]).fill(nr)
        base = D.Cal(antpos, order, case["pols"], t, f, case["conv"]).fill(nr)
        dirty(nr, new.gains, new.flags, case["dirty"])
        chans = list(range(case["nf"]))
        src = None
        if how != "write_cal":
            src = base.write(scratch + "/src.calfits")
        if how == "spoof":
            keep = sorted(rng.sample(range(case["nf"]), rng.randint(2, case["nf"])))
            if not any(b - a == 1 for a, b in zip(keep, keep[1:])):
                keep = sorted(set(keep) | {keep[0] + 1 if keep[0] + 1 < case["nf"] else keep[0] - 1})
            chans = keep
        keys = list(new.gains)
        if how == "write_cal":
            drop = rng.sample(keys, min(case["drop"], len(keys) - 1)) if case["drop"] else []
            keys = [k for k in keys if k not in drop]
        elif case["sub"]:
            keys = [k for k in keys if rng.random() > case["sub"]]
        rng.shuffle(keys)
        cut = lambda a: a[:, chans].copy()
        m = dict(gains={k: cut(new.gains[k]) for k in keys}, flags={k: cut(new.flags[k]) for k in keys} if case["flags"] else None,
                 quals={k: cut(new.quals[k]) for k in keys} if case["quals"] else None, antpos=antpos, times=t, freqs=f, conv=case["conv"], zc=case["zc"],
                 total={p: cut(new.total_qual[p]) for p in case["pols"]} if case["total"] and how != "update_cal" else None, chans=chans if how == "spoof" else None)
        # what must come back
        exp = dict(times=t, freqs=f[chans], conv=case["conv"])
        sh = (case["nt"], len(chans))
        if how == "write_cal":
            ea = sorted({k[0] for k in keys})
            ep = sorted({k[1] for k in keys})
            ek = [(a, p) for a in ea for p in ep]
            exp["gains"] = {k: m["gains"].get(k, np.ones(sh, complex)) for k in ek}
            exp["flags"] = {k: (m["flags"][k] if m["flags"] else np.zeros(sh, bool)) if k in m["gains"] else np.ones(sh, bool) for k in ek}
            exp["quals"] = {k: m["quals"][k] if m["quals"] and k in m["gains"] else np.ones(sh) for k in ek}
            exp["total"] = {p: m["total"][p] for p in ep} if m["total"] else None
        else:
            exp["gains"] = {k: m["gains"].get(k, cut(base.gains[k])) for k in base.gains}
            exp["flags"] = {k: (m["flags"] or {}).get(k, cut(base.flags[k])) for k in base.gains}
            exp["quals"] = {k: (m["quals"] or {}).get(k, cut(base.quals[k])) for k in base.gains}
            exp["total"] = {p: (m["total"] or {}).get(p, cut(base.total_qual[p])) for p in case["pols"]}
        if how == "update_cal" or how == "write_cal" and case["zc"]:
            for k in exp["gains"]:
                z = np.abs(exp["gains"][k]) <= 1e-10
                exp["gains"][k] = np.where(z, 1, exp["gains"][k])
                exp["flags"][k] = exp["flags"][k] | z
        if how == "spoof":
            allc = list(range(chans[0], chans[-1] + 1))
            at = [allc.index(c) for c in chans]
            exp["freqs"] = f[allc]

            def put(a, v, dt):
                o = np.full((case["nt"], len(allc)), v, dt)
                o[:, at] = a
                return o
            exp["gains"] = {k: put(a, 1, complex) for k, a in exp["gains"].items()}
            exp["flags"] = {k: put(a, True, bool) for k, a in exp["flags"].items()}
            exp["quals"] = {k: put(a, 0, float) for k, a in exp["quals"].items()}
            exp["total"] = {k: put(a, 0, float) for k, a in exp["total"].items()}
        out = scratch + "/real.calfits"
        if case["old"]:
            D.Cal(antpos, ants, ["Jee", "Jnn"], D.times_for(D.JD0, .4, 4), D.freqs_for(5)).fill(nr).write(out)
        r = finish(st, ev, cal_write, lambda kind, clob: (how, src, f"{scratch}/{kind}.calfits", m, clob), case["where"][0], case["faults"], 5)
        if r.status != "ok":
            return result(viol("cal-write-fails", f"{how} of {len(m['gains'])} gains: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        r = peer.run_job(case["where"][1], cal_read, case["read"], [out], exp["total"] is not None, case["conv"], seed=9)
        st.job(r)
        ev.append((r.status, r.exc_type, r.nops))
        if r.status != "ok":
            return result(viol("cal-read-fails", f"{how} then {case['read']}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        d = cal_diff(r.value, exp)
        st.add("probe:dirty", int(case["dirty"] > 0))
        return result(viol("cal-differs", f"written by {how}, read by {case['read']}: {d}") if d else None, ev, bool(keys), st, summary={"how": how, "read": case["read"]})


class CalCombine(Scenario):
    """Gain files combined, multiplied or read together, in two orders, by different jobs."""

    def gen(self, rng):
        kind = rng.choice(["combine", "combine", "multiply", "multi", "multi"])
        n = 2 if kind == "multiply" else rng.randint(1, 4)
        o = list(range(n))
        rng.shuffle(o)
        return {"seed": rng.randrange(1 << 30), "kind": kind, "n": n, "order": o, "nants": rng.randint(1, 5), "pols": rng.choice([["Jnn"], ["Jnn", "Jee"], ["Jnn", "Jee"], ["Jee", "Jnn"]]),
                "nt": rng.randint(1, 3), "nf": rng.choice([2, 3, 5]), "bc": rng.random() < .5, "div": rng.random() < .4, "dirty": rng.choice([0, 0, .15]), "mix": rng.random() < .5,
                "other": kind != "multi" and n > 1 and rng.random() < .15, "read": rng.choice(["heracal", "fast"]), "where": [rng.randrange(2), rng.randrange(2)],
                "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ANY)}

    lists = ("faults",)
    simple = {"dirty": 0, "other": False, "mix": False}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        kind, n = case["kind"], case["n"]
        antpos = D.grid_antpos(rng, case["nants"] + 1)
        ants = sorted(antpos)[:-1]
        f = D.freqs_for(case["nf"])
        cals, files = [], []
        for i in range(n):
            a, p = list(ants), list(case["pols"])
            if case["mix"]:
                rng.shuffle(a)
                rng.shuffle(p)
            if case["other"] and i == n - 1:
                a = a[:-1] + [sorted(antpos)[-1]] if rng.random() < .7 or len(a) == 1 else a[:-1]
            c = D.Cal(antpos, a, p, D.times_for(D.JD0, .3 + (i * case["nt"] * D.DT if kind == "multi" else 0), case["nt"]), f).fill(nr, full_flag=.2)
            if kind != "multiply":
                dirty(nr, c.gains, c.flags, case["dirty"])
            cals.append(c)
            files.append(c.write(f"{scratch}/c{i}.calfits"))
        keys = [(a, p) for a in ants for p in case["pols"]]
        outs = []
        for tag, order in (("a", list(range(n))), ("b", case["order"])):
            out = f"{scratch}/real{tag}.calfits"
            fs = [files[i] for i in order]
            if kind == "multi":
                r = peer.run_job(case["where"][tag == "b"], cal_read, case["read"], fs, True, seed=3)
                st.job(r)
            else:
                if kind == "combine":
                    r = finish(st, ev, combine, lambda k, clob: (fs, out if k == "real" else f"{scratch}/probe{tag}.calfits", case["bc"], clob), case["where"][0], case["faults"] if tag == "b" else [], 5)
                else:
                    r = finish(st, ev, multiply, lambda k, clob: (fs[0], fs[1], out if k == "real" else f"{scratch}/probe{tag}.calfits", case["div"], clob), case["where"][0], case["faults"] if tag == "b" else [], 5)
                if case["other"]:
                    ev.append(("other", r.status, r.exc_type))
                    if r.status == "ok":
                        return result(viol("other-antennas", f"{kind}: files with different antennas {[c.ants for c in cals]} were combined without complaint"), ev, True, st)
                    continue
                if r.status == "ok":
                    r = peer.run_job(case["where"][1], cal_read, case["read"], [out], False, seed=3)
                    st.job(r)
            ev.append((tag, r.status, r.exc_type, r.nops))
            if r.status != "ok":
                return result(viol(f"{kind}-fails", f"{kind} of {n} files in order {order}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            got = r.value
            if kind == "multi":
                exp = dict(times=np.concatenate([c.times for c in cals]), freqs=f)
                for w in ("gains", "flags", "quals"):
                    exp[w] = {k: np.concatenate([getattr(c, w)[k] for c in cals]) for k in keys}
                exp["total"] = {p: np.concatenate([c.total_qual[p] for c in cals]) for p in case["pols"]}
            else:
                exp = dict(times=cals[0].times, freqs=f)
                g, fl = {}, {}
                for k in keys:
                    if kind == "combine":
                        x = [np.where(c.flags[k], 1, c.gains[k]).astype(complex) for c in cals]
                        g[k] = np.prod(x, axis=0)
                        fl[k] = np.any([c.flags[k] for c in cals], axis=0) if case["bc"] else np.all([c.flags[k] for c in cals], axis=0)
                    else:
                        a, b = (cals[i].gains[k].astype(complex) for i in order)
                        g[k] = a / b if case["div"] else a * b
                        fl[k] = cals[0].flags[k] | cals[1].flags[k]
                exp["gains"], exp["flags"] = g, fl
                got = {k: v for k, v in got.items() if k not in ("quals", "total", "conv")}
            d = cal_diff(got, exp)
            if d:
                return result(viol(f"{kind}-wrong", f"{kind} of {n} files in order {order}, antennas {[c.ants for c in cals]}, polarizations {[c.pols for c in cals]}: {d}"), ev, True, st)
        return result(None, ev, n > 1, st, summary={"kind": kind, "n": n})


# ------------------------------------------------------------------ visibilities
def vis_write(how, src, out, m, clobber):
    from hera_cal import io
    from hera_cal.datacontainer import DataContainer
    dc = {w: DataContainer(m[w]) if m[w] is not None else None for w in ("data", "flags", "nsamples")}
    if how == "write_vis":
        io.write_vis(os.path.basename(out), dc["data"], m["lsts"], m["freqs"], m["antpos"], time_array=m["times"], start_jd=m["start_jd"], lst_branch_cut=m["cut"], flags=dc["flags"],
                     nsamples=dc["nsamples"], filetype="uvh5", outdir=os.path.dirname(out), overwrite=clobber, verbose=False, vis_units=m["units"], integration_time=m["inttime"])
    else:
        io.update_vis(src, out, filetype_in="uvh5", filetype_out="uvh5", data=dc["data"], flags=dc["flags"], nsamples=dc["nsamples"], add_to_history="y", clobber=clobber)


def vis_read(how, path):
    from hera_cal import io
    if how == "load":
        d, f = io.load_vis(path, filetype="uvh5")
        return dict(data={tuple(k): np.array(d[k]) for k in d.keys()}, flags={tuple(k): np.array(f[k]) for k in f.keys()})
    if how == "fast":
        hd = io.HERADataFastReader(path)
        d, f, n = hd.read()
        return dict(data={tuple(k): np.array(d[k]) for k in d.keys()}, flags={tuple(k): np.array(f[k]) for k in f.keys()}, nsamples={tuple(k): np.array(n[k]) for k in n.keys()},
                    times=np.array(d.times), lsts=np.array(d.lsts), freqs=np.array(d.freqs))
    hd = io.HERAData(path)
    d, f, n = hd.read()
    return dict(data={tuple(k): np.array(d[k]) for k in d.keys()}, flags={tuple(k): np.array(f[k]) for k in f.keys()}, nsamples={tuple(k): np.array(n[k]) for k in n.keys()},
                times=np.array(hd.times), lsts=np.array(hd.lsts), freqs=np.array(hd.freqs), units=hd.vis_units, inttime=np.unique(np.round(hd.integration_time, 6)),
                antpos={int(a): np.array(p) for a, p in hd.antpos.items()})


class VisRound(Scenario):
    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "how": rng.choice(["write_vis", "write_vis", "update_vis"]), "read": rng.choice(["heradata", "heradata", "fast", "load"]), "nants": rng.randint(2, 5),
                "pols": rng.choice([["nn"], ["ee"], ["nn", "ee"], ["ee", "nn"], ["ne", "en", "ee", "nn"]]), "nt": rng.randint(1, 4), "nf": rng.randint(1, 5), "flags": rng.random() < .7,
                "nsamples": rng.random() < .7, "conj": rng.random() < .5, "sub": rng.choice([0, 0, .4]), "units": rng.choice(["uncalib", "Jy"]), "lst": rng.random() < .25, "wrap": rng.random() < .3,
                "old": rng.random() < .4, "where": [rng.randrange(2), rng.randrange(2)], "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ANY)}

    lists = ("faults",)
    simple = {"sub": 0, "conj": False, "old": False, "units": "uncalib", "lst": False, "wrap": False}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        antpos = D.grid_antpos(rng, case["nants"])
        ants = sorted(antpos)
        prs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
        prs = sorted(rng.sample(prs, rng.randint(1, len(prs))))
        pols = case["pols"]
        start = .3
        if case["wrap"]:          # LST passes through zero within the file
            l0 = float(D.lsts_of((D.JD0 + .3,))[0])
            start = .3 + (2 * np.pi - l0) / (2 * np.pi) * .99727 - D.DT * rng.choice([.5, 1.5, 2.5])
        base = D.Vis(antpos, prs, pols, D.times_for(D.JD0, start, case["nt"]), D.freqs_for(case["nf"]), rng.random() < .5).fill(nr)
        new = D.Vis(antpos, prs, pols, base.times, base.freqs).fill(nr)
        for v in (base, new):
            for k in list(v.data):
                if k[0] == k[1] and k[2][0] != k[2][1]:
                    r = (k[0], k[1], k[2][::-1])
                    if r in v.data and k[2] == "en":
                        v.data[k] = np.conj(v.data[r])
        how = case["how"]
        src = base.write(scratch + "/src.uvh5") if how == "update_vis" else None
        keys = list(new.data)
        if how == "update_vis" and case["sub"]:
            keys = [k for k in keys if rng.random() > case["sub"] or k[0] == k[1]] or keys[:1]      # (autos: a cross-hand pair is one quantity)
        rng.shuffle(keys)
        flip = {k: case["conj"] and rng.random() < .5 and k[0] != k[1] for k in keys}
        if how == "write_vis":       # one orientation per antenna pair
            fl = {}
            flip = {k: fl.setdefault(k[:2], flip[k]) for k in keys}

        def give(d):
            return {((k[1], k[0], k[2][::-1]) if flip[k] else k): (np.conj(d[k]) if flip[k] else d[k]).copy() for k in keys}
        lst = case["lst"] and how == "write_vis"
        m = dict(data=give(new.data), flags=give(new.flags) if case["flags"] else None, nsamples=give(new.nsamples) if case["nsamples"] else None, lsts=base.lsts, freqs=base.freqs, antpos=antpos,
                 times=None if lst else base.times, start_jd=D.JD0 if lst else None, cut=float(base.lsts[0]) - 1e-6 if lst else 0., units=case["units"], inttime=D.INT_S)
        sh = (case["nt"], case["nf"])
        exp = dict(data={k: new.data[k] if k in keys else base.data[k] for k in base.data}, times=base.times, freqs=base.freqs, lsts=base.lsts)
        for w, dflt in (("flags", np.zeros(sh, bool)), ("nsamples", np.ones(sh, np.float32))):
            src_ = getattr(new, w)
            exp[w] = {k: src_[k] if case[w] and k in keys else (dflt if how == "write_vis" else getattr(base, w)[k]) for k in base.data}
        out = scratch + "/real.uvh5"
        if case["old"]:
            D.Vis(antpos, prs[:1], ["ee"], D.times_for(D.JD0, .5, 5), D.freqs_for(6)).fill(nr).write(out)
        r = finish(st, ev, vis_write, lambda kind, clob: (how, src, f"{scratch}/{kind}.uvh5", m, clob), case["where"][0], case["faults"], 5)
        if r.status != "ok":
            return result(viol("vis-write-fails", f"{how}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        r = peer.run_job(case["where"][1], vis_read, case["read"], out, seed=9)
        st.job(r)
        ev.append((r.status, r.exc_type, r.nops))
        if r.status != "ok":
            return result(viol("vis-read-fails", f"{how} then {case['read']}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        got, d = r.value, None
        canon = lambda k: min(k, (k[1], k[0], k[2][::-1]))
        if {canon(k) for k in got["data"]} != {canon(k) for k in exp["data"]}:
            d = f"baselines: missing {sorted({canon(k) for k in exp['data']} - {canon(k) for k in got['data']})[:3]}, unexpected {sorted({canon(k) for k in got['data']} - {canon(k) for k in exp['data']})[:3]}"
        else:
            for w in ("data", "flags", "nsamples"):
                if w in got and d is None:
                    d = eq(w, {k: D.get(got[w], k) for k in exp["data"]}, exp[w])
        for w, tol in (("times", 1e-6 if lst else 1e-8), ("freqs", 1.), ("lsts", 1e-5 if lst else 1e-7)):
            if d is None and w in got:
                a, b = np.asarray(got[w], float).ravel(), np.asarray(exp[w], float).ravel()
                dd = np.abs(a - b) if a.shape == b.shape else np.array([9.])
                if w == "lsts":
                    dd = np.minimum(dd, np.abs(2 * np.pi - dd))
                if np.any(dd > tol):
                    d = f"{w}: read {a.tolist()}, wrote {b.tolist()}"
        if d is None and how == "write_vis" and "units" in got:
            if got["units"] != case["units"]:
                d = f"units: read {got['units']}, wrote {case['units']}"
            elif len(got["inttime"]) != 1 or abs(got["inttime"][0] - D.INT_S) > 1e-3:
                d = f"integration time: read {got['inttime'].tolist()}, wrote {D.INT_S}"
            else:
                used = {a for k in keys for a in k[:2]}
                d = eq("antenna position", {a: np.round(p, 3) + 0. for a, p in got["antpos"].items() if a in used}, {a: np.round(antpos[a], 3) + 0. for a in used}, tol=1e-2)
        return result(viol("vis-differs", f"written by {how}, read by {case['read']}: {d}") if d else None, ev, True, st, summary={"how": how, "read": case["read"]})


# ------------------------------------------------------------------ redundant-calibration metadata, LST calibration
def meta_write(out, m, clobber):
    from hera_cal import io
    io.save_redcal_meta(out, m["fc"], m["omni"], m["freqs"], m["times"], m["lsts"], m["antpos"], m["history"], clobber=clobber)


def meta_read(path):
    from hera_cal import io
    fc, om, f, t, l, ap, h = io.read_redcal_meta(path)
    return dict(fc={k: {(int(a[0]), str(a[1])): np.array(x) for a, x in v.items()} for k, v in fc.items()}, omni={k: {str(p): np.array(x) for p, x in v.items()} for k, v in om.items()},
                freqs=np.array(f), times=np.array(t), lsts=np.array(l), antpos={int(a): np.array(p) for a, p in ap.items()}, history=str(h))


def lstcal_write(out, m, clobber):
    from hera_cal.lst_stack import calibration
    calibration.write_single_baseline_lstcal_solutions(out, m["params"], m["flags"], m["tpos"], m["antpos"], m["times"], m["freqs"], m["pols"], refpol=m["refpol"], **m["comp"])


def lstcal_read(path):
    from hera_cal.lst_stack import calibration
    p, f, md = calibration.load_single_baseline_lstcal_solutions(path)
    return dict(params={str(k): np.array(v) for k, v in p.items()}, flags={str(k): np.array(v) for k, v in f.items()}, tpos={int(a): np.array(v) for a, v in md["transformed_antpos"].items()},
                antpos={int(a): np.array(v) for a, v in md["antpos"].items()}, times=np.array(md["times"]), freqs=np.array(md["freqs"]), pols=[str(p) for p in md["pols"]], refpol=str(md["refpol"]))


class Meta(Scenario):
    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "kind": rng.choice(["redcal", "lstcal"]), "nants": rng.randint(1, 6), "npol": rng.choice([1, 2, 4]), "nt": rng.randint(1, 4), "nf": rng.randint(1, 6),
                "drop": rng.choice([0, 0, 1, 2]), "old": rng.random() < .4, "comp": rng.random() < .3, "where": [rng.randrange(2), rng.randrange(2)],
                "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ANY)}

    lists = ("faults",)
    simple = {"drop": 0, "old": False, "comp": False}

    def model(self, case, s):
        rng, nr = random.Random(s), np.random.default_rng(s)
        antpos = D.grid_antpos(rng, case["nants"])
        nt, nf = case["nt"], case["nf"]
        t, f = D.times_for(D.JD0, .3, nt), D.freqs_for(nf)
        noise = lambda *sh: np.where(nr.random(sh) < .1, np.nan, nr.normal(size=sh))
        if case["kind"] == "redcal":
            ks = [(a, p) for a in antpos for p in ["Jee", "Jnn"][:min(case["npol"], 2)]]
            rng.shuffle(ks)
            ks = ks[case["drop"]:] or ks
            pk = {1: ["Jee"], 2: ["Jnn", "Jee"], 4: ["['nn', 'ne', 'en', 'ee']"]}[case["npol"]]
            return dict(fc={"dlys": {k: noise(nt) * 1e-8 for k in ks}, "polarity_flips": {k: nr.random(nt) < .4 for k in ks}},
                        omni={"chisq": {p: noise(nt, nf) for p in pk}, "iter": {p: nr.integers(0, 500, (nt, nf)) for p in pk}, "conv_crit": {p: noise(nt, nf) for p in pk}},
                        freqs=f, times=t, lsts=np.array(D.lsts_of(tuple(t))), antpos=antpos, history=rng.choice(["made by a job", "first\nsecond", " "]))
        pols = ["ee", "nn", "en", "ne"][:case["npol"]]
        rng.shuffle(pols)
        jp = sorted({D.jpol(q) for p in pols for q in p})
        params = {}
        for p in jp:
            params["A_" + p] = noise(nt, nf)
            params["T_" + p] = noise(nt, nf, 2)
        if case["npol"] == 4:
            params["cross_pol"] = noise(nt, nf) + 1j * nr.normal(size=(nt, nf))
        sub = {a: nr.normal(size=2) for a in list(antpos)[case["drop"]:]} or {a: nr.normal(size=2) for a in antpos}
        return dict(params=params, flags={p: nr.random((nt, nf)) < .3 for p in pols}, tpos=sub, antpos=antpos, times=t, freqs=f, pols=pols, refpol=rng.choice(jp),
                    comp=dict(compression="gzip", compression_opts=4) if case["comp"] else {})

    def execute(self, case, scratch):
        st, ev = Stats(), []
        m = self.model(case, case["seed"])
        wr, rd = (meta_write, meta_read) if case["kind"] == "redcal" else (lstcal_write, lstcal_read)
        if case["old"]:
            r = peer.run_job(0, wr, scratch + "/real.h5", self.model(dict(case, nt=case["nt"] + 1), case["seed"] + 1), True, seed=1)
            st.job(r)
        r = finish(st, ev, wr, lambda kind, clob: (f"{scratch}/{kind}.h5", m, clob), case["where"][0], case["faults"], 5)
        if r.status != "ok":
            return result(viol(f"{case['kind']}-write-fails", f"{r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        r = peer.run_job(case["where"][1], rd, scratch + "/real.h5", seed=9)
        st.job(r)
        ev.append((r.status, r.exc_type, r.nops))
        if r.status != "ok":
            return result(viol(f"{case['kind']}-read-fails", f"{r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        d, got = None, r.value
        for k, e in m.items():
            if d is not None or k == "comp":
                continue
            g = got[k]
            if isinstance(e, dict) and any(isinstance(x, dict) for x in e.values()):
                for kk in sorted(e):
                    d = d or eq(f"{k}.{kk}", g[kk], e[kk], tol=1e-12)
            elif isinstance(e, dict):
                d = eq(k, g, e, tol=1e-12)
            elif isinstance(e, np.ndarray):
                d = eq(k, {0: g}, {0: e}, tol=1e-12)
            elif g != e:
                d = f"{k}: read {g!r}, wrote {e!r}"
        return result(viol(f"{case['kind']}-differs", d) if d else None, ev, True, st)


# ------------------------------------------------------------------ decoherence measurements
PER = ("decoherence", "decoherence_refit", "log_suppression_sigma", "n_spectra_per_SNAP")


def snap_write(out, m, clobber):
    from hera_cal import io
    io.SNAPDecoherence(m["decoherence"], m["decoherence_refit"], m["log_suppression_sigma"], m["n_spectra_per_SNAP"], m["times"], m["block_freqs"], m["map"], m["covered"], m["edge"], m["bands"],
                       estimator_kwargs=m["kw"], history=m["history"]).write(out, clobber=clobber)


def snap_read(how, paths, again):
    from hera_cal import io
    S = io.SNAPDecoherence
    if how == "read":
        s = S.read(paths if len(paths) > 1 else paths[0])
    elif how == "concat":
        s = S.concatenate([S.read(p) for p in paths])
    else:
        s = S.read(paths[0])
        for p in paths[1:]:
            s = s + S.read(p)
    if again:
        s.write(again, clobber=True)
        s = S.read(again)
    return dict(decoherence=plain(s.decoherence), decoherence_refit=plain(s._decoherence_refit), log_suppression_sigma=plain(s._log_suppression_sigma), n_spectra_per_SNAP=plain(s._n_spectra_per_SNAP),
                times=np.array(s.times), block_freqs=np.array(s.block_freqs), map={int(k): str(v) for k, v in s.ant_to_SNAP_dict.items()}, covered=np.array(s._covered_blocks),
                edge=list(map(int, s._edge_blocks)), bands=np.array(s._band_edges), kw={k: (v.item() if hasattr(v, "item") else v) for k, v in s._estimator_kwargs.items()}, history=s.history,
                snaps=[str(x) for x in s.SNAPs], paths=[p and os.path.basename(p) for p in s.filepaths])


class Snap(Scenario):
    def gen(self, rng):
        n = rng.choice([1, 1, 2, 3, 4])
        o = list(range(n))
        rng.shuffle(o)
        return {"seed": rng.randrange(1 << 30), "n": n, "order": o, "nt": [rng.randint(1, 3) for _ in range(n)], "nb": rng.randint(1, 4), "nch": rng.randint(1, 3), "how": rng.choice(["read", "concat", "add"]),
                "inter": rng.random() < .2, "again": rng.random() < .4, "clash": n > 1 and rng.random() < .2, "dup": n > 1 and rng.random() < .1, "where": [rng.randrange(2), rng.randrange(2)],
                "old": rng.random() < .3, "faults": pick_faults(rng, rng.choice([0, 0, 1, 2]), FAULTS, ANY)}

    lists = ("faults",)
    simple = {"inter": False, "again": False, "old": False, "dup": False, "clash": False}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        n, nb, nch = case["n"], case["nb"], case["nch"]
        names = [f"heraNode{i}Snap{i % 4}" for i in rng.sample(range(12), 5)]
        nant = rng.randint(1, 8)
        amap = {a: rng.choice(names) for a in rng.sample(range(300), nant)}
        bf = D.freqs_for(nb * nch).reshape(nb, nch)
        kw = {"nchans_per_block": nch, "gain_smoothing_scale": 1e-7, "verbose": False, "band_split_freq": 1e8}
        slots = list(range(sum(case["nt"])))
        if case["inter"]:
            rng.shuffle(slots)
        ms, at = [], 0
        nband = rng.randint(1, 2)
        for i in range(n):
            nt = case["nt"][i]
            ts = D.JD0 + .3 + D.DT * np.array(sorted(slots[at:at + nt]), float)
            at += nt
            sn = sorted(rng.sample(names, rng.randint(1, 4)))
            arr = lambda: np.where(nr.random((nt, nb)) < .3, np.nan, nr.random((nt, nb)) * .9)
            ed = np.sort(nr.uniform(1e8, 2e8, (nband, 2)), axis=1)
            ed[nr.random(nband) < .2] = np.nan
            sub = {a: s for a, s in amap.items() if rng.random() < .8 or n == 1}
            ms.append(dict(decoherence={s: arr() for s in sn}, decoherence_refit={s: arr() for s in sn}, log_suppression_sigma={s: arr() for s in sn}, n_spectra_per_SNAP={s: nr.integers(1, 50, nt) for s in sn},
                           times=ts, block_freqs=bf, map=sub, covered=nr.random(nb) < .7, edge=sorted(rng.sample(range(nb), rng.randint(0, nb))), bands=ed, kw=dict(kw), history=f"part {i};"))
        bad = None
        if case["dup"]:
            ms[-1]["times"] = ms[-1]["times"].copy()
            ms[-1]["times"][0] = ms[0]["times"][0]
            if len(set(np.concatenate([m["times"] for m in ms]))) < sum(case["nt"]) and np.all(np.diff(ms[-1]["times"]) > 0):
                bad = "the same integration in two files"
        elif case["clash"]:
            kind = rng.choice(["map", "kw", "freq"])
            if kind == "map":
                a = max(amap)
                ms[0]["map"][a], ms[-1]["map"][a] = names[0], names[1]
            elif kind == "kw":
                ms[-1]["kw"]["gain_smoothing_scale"] = 2e-7
            else:
                ms[-1]["block_freqs"] = bf + 5e6
            bad = f"files that differ in {kind}"
        paths = []
        for i, m in enumerate(ms):
            p = f"{scratch}/r{i}.h5"
            paths.append(p)
            if case["old"]:
                st.job(peer.run_job(0, snap_write, p, ms[i - 1], True, seed=1))
            r = finish(st, ev, snap_write, lambda k, clob: (p if k == "real" else f"{scratch}/p{i}.h5", m, clob), case["where"][0], case["faults"] if i == 0 else [], 5)
            if r.status != "ok":
                return result(viol("snap-write-fails", f"{r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        v = None
        tord = sorted(range(n), key=lambda i: ms[i]["times"][0])
        for order in ([0] if n == 1 else [list(range(n)), case["order"]]):
            o = [0] if n == 1 else order
            r = peer.run_job(case["where"][1], snap_read, case["how"], [paths[i] for i in o], scratch + "/again.h5" if case["again"] else None, seed=9)
            st.job(r)
            ev.append((r.status, r.exc_type, r.nops))
            if bad:
                if r.status == "ok":
                    v = viol("snap-merged-clash", f"{case['how']} of {n} files in order {o} merged {bad}")
                    break
                continue
            if r.status != "ok":
                v = viol("snap-read-fails", f"{case['how']} of {n} files in order {o}: {r.brief()}\n{r.tb[-1500:]}")
                break
            got = r.value
            t = np.concatenate([m["times"] for m in ms])
            ix = np.argsort(t)
            sn = sorted(set().union(*[m["decoherence"] for m in ms]))
            d = None if got["snaps"] == sn else f"SNAPs: read {got['snaps']}, wrote {sn}"
            for w in PER:
                fill = 0 if w == PER[3] else np.nan
                full = {s: np.concatenate([m[w][s] if s in m[w] else np.full((len(m["times"]),) + (() if w == PER[3] else (nb,)), fill) for m in ms])[ix] for s in sn}
                d = d or eq(w, got[w], full, tol=1e-12)
            if d is None and not np.array_equal(got["times"], t[ix]):
                d = f"times: read {got['times'].tolist()}, wrote {t[ix].tolist()}"
            if d is None and not np.array_equal(got["block_freqs"], bf):
                d = "block frequencies differ"
            em = {}
            for m in ms:
                em.update(m["map"])
            if d is None and got["map"] != em:
                d = f"antenna map: read {got['map']}, wrote {em}"
            if d is None and got["covered"].tolist() != np.any([m["covered"] for m in ms], axis=0).tolist():
                d = f"covered blocks: read {got['covered'].tolist()}"
            if d is None and got["edge"] != sorted(set().union(*[m["edge"] for m in ms])):
                d = f"edge blocks: read {got['edge']}"
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    be = np.stack([np.nanmin([m["bands"][:, 0] for m in ms], axis=0), np.nanmax([m["bands"][:, 1] for m in ms], axis=0)], axis=1)
            if d is None and not np.array_equal(got["bands"], be, equal_nan=True):
                d = f"band edges: read {got['bands'].tolist()}, wrote {be.tolist()}"
            if d is None and got["kw"] != kw:
                d = f"estimator settings: read {got['kw']}, wrote {kw}"
            if d is None and [got["history"].find(f"part {i};") for i in range(n)].count(-1):
                d = f"history lost: {got['history'][:200]!r}"
            if d is None and not case["again"] and not case["inter"] and case["how"] != "add" and got["paths"] != [os.path.basename(paths[i]) for i in tord]:
                d = f"file names: {got['paths']}, wrote {[os.path.basename(paths[i]) for i in tord]}"
            if d:
                v = viol("snap-differs", f"{case['how']} of {n} files in order {o}: {d}")
                break
        return result(v, ev, n > 1, st, summary={"n": n, "how": case["how"]})


SCENARIOS = {"cal": CalRound(), "combine": CalCombine(), "vis": VisRound(), "meta": Meta(), "snap": Snap()}
