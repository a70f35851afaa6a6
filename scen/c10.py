"""C10: applying calibration from file to file equals the calibration equation."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core
from sim import data as D
from sim import oracle as O
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

from .stages import write_antflag_yaml

POLS = {1: ["nn"], 2: ["nn", "ee"], 4: ["nn", "ee", "ne", "en"]}


def inputs(p, d):
    rng = random.Random(p["seed"])
    nr = np.random.default_rng(p["seed"])
    ap = D.grid_antpos(rng, p["nants"], compact=True)
    a = sorted(ap)
    pairs = [(i, j) for i in a for j in a if i <= j]
    pairs = [q for q in pairs if rng.random() < p["dens"]] or pairs[:2]
    if p["flip"]:
        pairs = [q[::-1] if rng.random() < .4 else q for q in pairs]
    if p["shuffle"]:
        rng.shuffle(pairs)
    v = D.Vis(ap, pairs, POLS[p["npol"]], D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"]), p["time_major"]).fill(nr, full_flag=.12)
    for k in v.keys():          # the two cross-hand autocorrelations of an antenna are one another's conjugate
        if k[0] == k[1] and k[2] == "en":
            t = (k[0], k[0], "ne")
            v.data[k], v.flags[k], v.nsamples[k] = np.conj(v.data[t]), v.flags[t].copy(), v.nsamples[t].copy()
    v.write(d + "/in/data.uvh5")
    jp = sorted({D.jpol(x) for q in v.pols for x in q}, reverse=True)

    def cal(name, ants, freqs, conv, split):
        c = D.Cal(ap, ants, jp, v.times, freqs, conv).fill(nr)
        if split and len(v.times) > 1:
            h = rng.randrange(1, len(v.times))
            out = []
            for i, ts in enumerate((slice(0, h), slice(h, None))):
                x = D.Cal(ap, ants, jp, v.times[ts], freqs, conv)
                for w in ("gains", "flags", "quals", "total_qual"):
                    setattr(x, w, {k: y[ts] for k, y in getattr(c, w).items()})
                out.append(x.write(d + f"/in/{name}{i}.calfits"))
            if rng.random() < .4:
                out.reverse()
            return c, out
        return c, c.write(d + f"/in/{name}.calfits", gain_scale="Jy" if p["scale"] else None)
    F = list(range(p["nf"]))
    cf = F
    if p["calfreq"] and len(F) > 2:
        lo = rng.randrange(0, len(F) - 1)
        cf = F[lo:rng.randint(lo + 2, len(F))]
    new, newp = cal("new", a[:len(a) - p["drop"]], v.freqs[cf], p["conv"], p["split"])
    old = oldp = None
    if p["old"]:
        old, oldp = cal("old", a[p["dropold"]:], v.freqs, p["conv"], False)
    ext = None
    if p["ff"]:
        ext = {k: nr.random(v.flags[k].shape) < .2 for k in v.keys()}
        for k in v.keys():
            if k[0] == k[1] and k[2] == "en":
                ext[k] = ext[k[0], k[0], "ne"]
        D.flag_file(v, d + "/in/flags.h5", ext)
    ex = []
    if p["yaml"]:
        ex = rng.sample(a, 1)
        write_antflag_yaml(d + "/in/ants.yaml", ex)
    return v, new, newp, old, oldp, ext, ex, cf


def run(p, d, o, newp, oldp, nbl, clobber, spw):
    from hera_cal import apply_cal as ac
    ac.apply_cal(d + "/in/data.uvh5", o, newp, old_calibration=oldp, flag_file=d + "/in/flags.h5" if p["ff"] else None, flag_nchan_low=p["low"],
                 flag_nchan_high=p["high"], nbl_per_load=nbl, gain_convention=p["conv"], redundant_average=p["mode"] == "red", redundant_solution=p["mode"] == "sol",
                 a_priori_flags_yaml=d + "/in/ants.yaml" if p["yaml"] else None, clobber=clobber, spw_range=spw, add_to_history="applied", vis_units="Jy" if p["scale"] else None)


def vec(ap, q):
    return tuple(np.round(ap[q[1]] - ap[q[0]]).astype(int).tolist())


def model(p, v, new, old, ext, ex, cf, spw):
    """Expected calibrated visibilities: data, flags, nsamples, specified."""
    F = [f for f in range(len(v.freqs)) if f in cf and (spw is None or spw[0] <= f < spw[1])]
    ci = [cf.index(f) for f in F]
    g = {k: x[:, ci] for k, x in new.gains.items()}
    fl = {k: x[:, ci] | (k[0] in ex) for k, x in new.flags.items()}
    og = {k: x[:, F] for k, x in old.gains.items()} if old else None
    of = {k: x[:, F] for k, x in old.flags.items()} if old else None
    data, flags, ns, spec = {}, {}, {}, {}
    for k in v.keys():
        f = v.flags[k][:, F].copy()
        f[:, :p["low"]] = True
        f[:, max(f.shape[1] - p["high"], 0):] = True
        if ext is not None:
            f |= ext[k][:, F]
        d = v.data[k][:, F].astype(complex)
        if p["mode"] == "sol":
            ants = sorted({x for q in v.antpairs for x in q})
            b = vec(v.antpos, k[:2])
            ratios = []
            for i in ants:
                for j in ants:
                    if vec(v.antpos, (i, j)) == b:
                        r = np.full(d.shape, np.nan + 0j)
                        ki, kj = (i, O.jp(k[2][0])), (j, O.jp(k[2][1]))
                        if ki in g and kj in g:
                            r = 1 / (g[ki].astype(complex) * np.conj(g[kj].astype(complex)))
                            bad = fl[ki] | fl[kj]
                            if og is not None:
                                r = r * og[ki] * np.conj(og[kj])
                                bad = bad | of[ki] | of[kj]
                            r = np.where(bad, np.nan, r)
                        ratios.append(r)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                avg = np.nanmean(ratios, axis=0)
            bad = ~np.isfinite(avg)
            avg = np.where(bad, 1, avg)
            data[k], flags[k], spec[k] = d * avg**(1 if p["conv"] == "divide" else -1), f | bad, True
        else:
            data[k], flags[k], spec[k] = O.calibrate(k, d, f, g, fl, og, p["conv"])
        ns[k] = v.nsamples[k][:, F]
    return dict(data=data, flags=flags, nsamples=ns, times=v.times, freqs=v.freqs[F]), spec


def averaged(v, e, spec):
    """Redundant average of the model: per baseline vector and polarization, in both orientations."""
    groups = {}
    for (i, j, q) in v.keys():
        groups.setdefault((vec(v.antpos, (i, j)), q), []).append((i, j, q, False))
        if i != j:
            groups.setdefault((vec(v.antpos, (j, i)), q[::-1]), []).append((i, j, q, True))
    out = {}
    for gk, ks in groups.items():
        ws, wd, n, f, sp = 0, 0, 0, None, True
        for i, j, q, c in ks:
            k = (i, j, q)
            w = e["nsamples"][k].astype(float) * (0 if e["flags"][k].all() else 1)
            x = np.conj(e["data"][k]) if c else e["data"][k]
            ws, wd, n = ws + w, wd + w * x, n + e["nsamples"][k] * (w != 0)
            ff = (w == 0) | e["flags"][k]
            f = ff if f is None else f & ff
            allf = e["flags"][k] if sp is True else allf & e["flags"][k]  # noqa
            sp = (sp if sp is not True else 0) if spec[k] or e["flags"][k].all() else False
        with np.errstate(all="ignore"):
            avg = wd / np.clip(ws, 1e-10, np.inf)
        avg = np.where(allf, 1.0, avg)
        out[gk] = (avg, f, n)
    return out


class Apply(Scenario):
    lists = ("trials",)
    minlen = {"trials": 1}

    def gen(self, rng):
        mode = rng.choice(["plain", "plain", "plain", "red", "red", "sol"])
        p = dict(seed=rng.randrange(1 << 28), nants=rng.randint(2, 6), npol=rng.choice([1, 2, 2, 4]), nt=rng.randint(1, 4), nf=rng.randint(3, 7), dens=rng.choice([1, 1, .7]),
                 flip=rng.random() < .3, shuffle=rng.random() < .3, time_major=rng.random() < .5, conv=rng.choice(["divide", "divide", "multiply"]), drop=rng.choice([0, 0, 0, 1]),
                 old=rng.random() < .4, dropold=rng.choice([0, 0, 1]) if mode != "sol" else 0, split=rng.random() < .25, scale=rng.random() < .3, calfreq=rng.random() < .3,
                 low=rng.choice([0, 0, 1, 2]), high=rng.choice([0, 0, 1]), ff=False, yaml=rng.random() < .2, mode=mode)
        spw = None
        if not p["calfreq"]:
            if rng.random() < .2 and not p["old"]:
                lo = rng.randrange(0, p["nf"] - 1)
                spw = [lo, rng.randint(lo + 2, p["nf"] + 1)]
            else:
                p["ff"] = rng.random() < .4
        trials = []
        for nbl in [None] + rng.sample([1, 2, 3, 5, 8, 100], 2):
            t = dict(nbl=nbl, faults=[], listseed=0)
            if rng.random() < .3:
                t["faults"] = pick_faults(rng, rng.choice([1, 1, 2]), ["crash", "torn", "crash_after", "err", "full"], ["any", "write", "write"])
            trials.append(t)
        return dict(p=p, spw=spw, trials=trials)

    def execute(self, case, d):
        st = Stats()
        p, spw = case["p"], case["spw"]
        os.makedirs(d + "/in")
        v, new, newp, old, oldp, ext, ex, cf = inputs(p, d)
        e, spec = model(p, v, new, old, ext, ex, cf, spw)
        if p["mode"] == "red":
            av = averaged(v, e, spec)
        vio, log, seen = None, [], []
        for n, t in enumerate(case["trials"]):
            o = d + f"/out{n}.uvh5"
            args = (p, d, o, newp, oldp, t["nbl"])
            plan = []
            if t["faults"]:
                r = core.run_job(run, p, d, d + f"/prof{n}.uvh5", newp, oldp, t["nbl"], False, spw)
                plan = resolve(t["faults"], r.ops()) if r.status == "ok" else []
                r = core.run_job(run, *args, False, spw, plan=plan)
                st.job(r)
                st.fired(plan, r)
                log.append((r.status, r.fired))
            r = core.run_job(run, *args, bool(plan), spw)
            st.job(r)
            st.add("probe:" + p["mode"] + ("_whole" if t["nbl"] is None else "_chunked"))
            log.append((r.status, r.nops))
            if r.status != "ok":
                vio = viol("apply_failed", f"nbl_per_load={t['nbl']}: " + r.brief() + "\n" + r.tb[-1500:])
                break
            g = D.read_uvh5(o)
            if p["mode"] != "red":
                m = self.plain(g, e, spec)
            else:
                m = self.red(g, v, e, av)
            if m:
                vio = viol("calibration_" + p["mode"], f"nbl_per_load={t['nbl']}: {m}")
                break
            seen.append((t["nbl"], g))
            g0 = seen[0][1]
            m = D.diff_vis(g, g0, tol=1e-4, what=("flags", "nsamples")) or (g["vis_units"] != g0["vis_units"] and f"vis_units {g['vis_units']} and {g0['vis_units']}")
            if m:
                vio = viol("depends_on_loading", f"nbl_per_load={t['nbl']} and {seen[0][0]}: {m}")
                break
        return result(vio, (case, log), True, st, summary={"mode": p["mode"], "log": log}, trace={"trials": case["trials"], "p": p})

    def plain(self, g, e, spec):
        m = D.diff_vis(g, e, what=("flags", "nsamples"))
        if m:
            return m
        for k in e["data"]:
            if not spec[k]:
                continue
            x, y = D.get(g["data"], k), e["data"][k]
            if not np.allclose(x, y, rtol=2e-4, atol=1e-5 * (1 + np.abs(y).max())):
                ix = tuple(np.argwhere(~np.isclose(x, y, rtol=2e-4, atol=1e-5 * (1 + np.abs(y).max())))[0])
                return f"data{k} differs at {list(map(int, ix))}: {x[ix]}, expected {y[ix]}"
        return None

    def red(self, g, v, e, av):
        need = {}
        for q in v.antpairs:
            b = vec(v.antpos, q)
            need[max(b, tuple(-x for x in b))] = q
        have = {}
        for q in g["antpairs"]:
            b = vec(v.antpos, q)
            b = max(b, tuple(-x for x in b))
            if b in have:
                return f"the group of {q} appears twice"
            have[b] = q
        if set(have) != set(need):
            return f"redundant groups differ: missing {[need[b] for b in set(need) - set(have)]}, extra {[have[b] for b in set(have) - set(need)]}"
        if len(g["times"]) != len(e["times"]) or len(g["freqs"]) != len(e["freqs"]) or not np.allclose(g["freqs"], e["freqs"], rtol=0, atol=1):
            return "times or frequencies differ"
        for k in g["data"]:
            a, f, n = av[vec(v.antpos, k[:2]), k[2]]
            if not np.array_equal(g["flags"][k], f):
                return f"flags{k} of the average differ at {np.argwhere(g['flags'][k] != f)[0].tolist()}"
            if not np.allclose(g["nsamples"][k], n):
                return f"nsamples{k} of the average differ at {np.argwhere(g['nsamples'][k] != n)[0].tolist()}"
            ok = ~f
            if not np.allclose(g["data"][k][ok], a[ok], rtol=2e-4, atol=1e-5 * (1 + np.abs(a).max())):
                return f"data{k} of the average differ"
        return None

    def shrink(self, case, d):
        yield from super().shrink(case, d)
        for i, t in enumerate(case["trials"]):
            if t["faults"]:
                c = cp(case)
                c["trials"][i]["faults"] = []
                yield c
        for k, alts in (("nants", [2, 3]), ("npol", [1, 2]), ("nt", [1]), ("nf", [3]), ("flip", [False]), ("shuffle", [False]), ("old", [False]), ("drop", [0]), ("dropold", [0]),
                        ("split", [False]), ("scale", [False]), ("calfreq", [False]), ("low", [0]), ("high", [0]), ("ff", [False]), ("yaml", [False]), ("dens", [1])):
            for a in alts:
                if case["p"][k] != a:
                    c = cp(case)
                    c["p"][k] = a
                    yield c
        if case["spw"]:
            yield cp(case, spw=None)


SCENARIOS = {"apply": Apply()}
