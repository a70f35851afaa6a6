"""C17: calibration solved in pieces equals calibration solved whole."""
from __future__ import annotations

import random

import h5py
import numpy as np

from sim import data as D
from sim.base import Scenario, Stats, cp, pick_faults, result, viol
from scen import stages
from scen.c08 import FAULTS, finish

SIDEREAL = 0.99726957


def sun_alt(times):
    from astropy.coordinates import AltAz, EarthLocation, get_sun
    from astropy.time import Time
    import astropy.units as u
    loc = D.hera_loc()
    t = Time(np.asarray(times), format="jd", scale="utc")
    return get_sun(t).transform_to(AltAz(obstime=t, location=loc)).alt.deg


def noon(culm):
    """Fraction of day after JD0 at which the Sun culminates (True) or anticulminates."""
    ts = D.JD0 + np.arange(0, 1, 1 / 480)
    a = sun_alt(ts)
    i = int(np.argmax(a) if culm else np.argmin(a))
    return float(ts[i] - D.JD0)


_noon = {}


def culmination(c):
    if c not in _noon:
        _noon[c] = noon(c)
    return _noon[c]


def sky(seed, antpos, pairs, pols, lsts, freqs, src=10):
    """Visibilities of a few sources fixed on the sky, as a function of LST (redundant)."""
    nr = np.random.default_rng(seed + 4000)
    th, ph = nr.uniform(-.6, .6, src), nr.uniform(0, 2 * np.pi, src)
    lx, ly = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph)
    flux = {p: nr.uniform(.05, .3, src) for p in ("nn", "ee", "ne", "en")}
    for f in flux.values():
        f[0] = 10.          # no baseline's visibility comes near zero
    rot = np.asarray(lsts)
    x = lx * np.cos(rot)[:, None] - ly * np.sin(rot)[:, None]
    y = lx * np.sin(rot)[:, None] + ly * np.cos(rot)[:, None]
    out = {}
    for i, j in pairs:
        b = np.round(antpos[j] - antpos[i], 6)
        m = np.exp(-2j * np.pi * ((b[0] * x + b[1] * y) / 2.99792458e8)[:, None, :] * np.asarray(freqs)[None, :, None])
        for p in pols:
            a = flux[p] if p[0] == p[1] else .1 * flux["ne"]
            d = (m * a).sum(-1)
            if i == j:
                d = d + (200 if p[0] == p[1] else 0)
            out[i, j, p] = d
    return out


def wide(n):
    """Few but wide channels: enough bandwidth for delays and offsets to be told apart."""
    return 110e6 + np.arange(n) * (64e6 / n)


def varying_gains(seed, antpos, pols, nt, freqs):
    """Gains with a delay, and an amplitude and phase of their own in every integration."""
    nr = np.random.default_rng(seed + 6000)
    g = {}
    for a in sorted(antpos):
        for q in ("n", "e"):
            tau, amp, phs = nr.uniform(-8e-9, 8e-9), 1 + .15 * nr.uniform(-1, 1), nr.uniform(-.2, .2)
            t = (1 + .2 * nr.uniform(-1, 1, nt)) * np.exp(.1j * nr.uniform(-1, 1, nt))
            g[a, D.jpol(q)] = t[:, None] * (amp * np.exp(1j * (2 * np.pi * np.asarray(freqs) * tau + phs)))[None, :]
    return g


def corrupted(v, vis, gains, noise, nr):
    for k in v.keys():
        i, j, q = k
        d = vis[k] * gains[i, D.jpol(q[0])] * np.conj(gains[j, D.jpol(q[1])]) if gains is not None else vis[k]
        s = noise * (nr.normal(size=d.shape) + 1j * nr.normal(size=d.shape))
        if i == j and q[0] == q[1]:
            d, s = np.abs(d), s.real
        v.data[k] = (d + s).astype(np.complex64)
        v.flags[k] = np.zeros(d.shape, bool)
        v.nsamples[k] = np.ones(d.shape, np.float32)
    for k in v.keys():
        if k[0] == k[1] and k[2] == "en":
            v.data[k] = np.conj(v.data[k[0], k[1], "ne"])
    return v


def times_and_horizon(case):
    """Integrations of the file and a solar horizon that excludes some of them."""
    nt, sun = case["nt"], case["sun"]
    if sun in ("noon", "night"):
        mid = culmination(sun == "noon")
        ts = D.times_for(D.JD0, mid - D.DT * nt / 2 * case["stretch"] + case["shift"] * D.DT, nt, D.DT * case["stretch"])
    else:
        ts = D.times_for(D.JD0, {"rise": .17, "set": .73}.get(sun, .35), nt, D.DT * case["stretch"])
    alt = sun_alt(ts)
    if sun == "none":
        return ts, 90., np.zeros(nt, bool)
    s = np.sort(alt)
    i = case["cut"] % (nt + 1)
    lo = s[i - 1] if i > 0 else s[0] - 1
    hi = s[i] if i < nt else s[-1] + 1
    if hi - lo < 1e-4:
        return ts, 90., np.zeros(nt, bool)
    h = (lo + hi) / 2
    return ts, float(h), alt > h


def redcal_job(inp, outdir, nint, o, clobber):
    from hera_cal import redcal
    redcal.redcal_run(inp, outdir=outdir, nInt_to_load=nint, pol_mode=o["mode"], ex_ants=list(o["ex"]), solar_horizon=o["horizon"], flag_nchan_low=o["low"], flag_nchan_high=o["high"],
                      oc_maxiter=o["maxiter"], oc_conv_crit=1e-8, check_after=5, check_every=5, max_rerun=o["rerun"], ant_z_thresh=o["z"], iter0_prefix=o["iter0"], clobber=clobber)


def abscal_job(inp, cal, models, out, nint, o, clobber):
    from hera_cal import abscal
    abscal.post_redcal_abscal_run(inp, cal, models, output_file=out, nInt_to_load=nint, data_solar_horizon=o["horizon"], model_solar_horizon=o["mhorizon"], extrap_limit=o["limit"],
                                  phs_max_iter=o["iter"], phs_conv_crit=1e-9, write_delta_gains=o["delta"], output_file_delta=out.replace(".abs.", ".delta.") if o["delta"] else None,
                                  skip_abs_amp_lincal=o["skiplin"], refant=o["refant"], clobber=clobber, verbose=False)


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    s = max(1., float(np.abs(a[np.isfinite(a)]).max(initial=0)))
    return ~np.isclose(a, b, rtol=0, atol=tol * s, equal_nan=True)


def cal_apart(ref, got, tol, what=("gains", "flags", "quals", "total_qual")):
    if set(ref["gains"]) != set(got["gains"]) or not np.allclose(ref["times"], got["times"], rtol=0, atol=1e-8) or not np.allclose(ref["freqs"], got["freqs"]):
        return "antennas, times or channels differ"
    for w in what:
        if set(ref[w]) != set(got[w]):
            return f"{w} of {sorted(set(ref[w]) ^ set(got[w]))}"
        for k in sorted(ref[w]):
            x, y = ref[w][k], got[w][k]
            bad = x != y if w == "flags" else near(x, y, tol)
            if w in ("gains",):
                bad = bad & ~ref["flags"][k]
            if bad.any():
                ix = tuple(int(q) for q in np.argwhere(bad)[0])
                return f"{w}{k} differs in {int(bad.sum())} of {bad.size} samples, first at {ix}: {y[ix]}, all at once {x[ix]}"
    return None


class Redcal(Scenario):
    lists = ("variants",)
    minlen = {"variants": 1}

    def gen(self, rng):
        nt = rng.randint(2, 6)
        mode = rng.choice(["2pol", "2pol", "1pol", "4pol", "4pol_minV"])
        vs = [[rng.choice([1, 1, 2, 3, nt, nt + 2]), rng.randrange(2), pick_faults(rng, rng.choice([0, 0, 1]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for _ in range(rng.choice([1, 1, 2]))]
        return {"seed": rng.randrange(1 << 30), "nants": rng.choice([6, 7, 9]), "nt": nt, "nf": rng.choice([12, 16]), "time_major": rng.random() < .5, "sun": rng.choice(["none", "rise", "set", "noon", "night"]),
                "cut": rng.randrange(0, 7), "shift": rng.choice([0, 0, .4, -.4]), "stretch": rng.choice([1, 1, 40]), "mode": mode, "ex": rng.random() < .35, "low": rng.choice([0, 0, 1, 2]), "high": rng.choice([0, 0, 1]),
                "bad": rng.random() < .3 and mode[0] != "4", "iter0": rng.random() < .5, "noise": rng.choice([1e-3, 1e-2]), "variants": vs}

    def execute(self, case, scratch):
        import os
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        ap = D.grid_antpos(rng, case["nants"], compact=True)
        ts, horizon, out = times_and_horizon(case)
        pols = ["ee"] if case["mode"] == "1pol" else ["nn", "ee"] if case["mode"] == "2pol" else ["nn", "ee", "ne", "en"]
        v = D.Vis(ap, stages.all_pairs(ap), pols, ts, wide(case["nf"]), case["time_major"])
        g = varying_gains(case["seed"], ap, pols, len(ts), v.freqs)
        corrupted(v, sky(case["seed"], ap, v.antpairs, pols, v.lsts, v.freqs), g, case["noise"], nr)
        if case["bad"]:
            b = sorted(ap)[-1]
            for k in v.keys():
                if b in k[:2] and k[0] != k[1]:
                    v.data[k] += (.1 * (nr.normal(size=v.data[k].shape) + 1j * nr.normal(size=v.data[k].shape))).astype(np.complex64)
        inp = v.write(f"{scratch}/zen.1.uvh5")
        o = dict(mode=case["mode"], ex=[sorted(ap)[0]] if case["ex"] else [], horizon=horizon, low=case["low"], high=case["high"], maxiter=500, rerun=2 if case["bad"] else 1,
                 z=4. if case["bad"] else 100., iter0=".iter0" if case["iter0"] and case["bad"] else "")

        def job(tag, nint, where, faults, seed):
            def args(kind, clob):
                os.makedirs(f"{scratch}/{kind}{tag}", exist_ok=True)
                return (inp, f"{scratch}/{kind}{tag}", nint, o, clob)
            return finish(st, ev, redcal_job, args, where, faults, seed)
        desc = f"{case['mode']}, {len(ts)} integrations, excluded {np.where(out)[0].tolist()}"
        r = job("ref", None, 0, [], 0)
        if r.status != "ok":
            return result(viol("redcal-fails", f"all at once ({desc}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        ref = self.read(f"{scratch}/realref")
        m = self.check(case, v, ref, out, o)
        if m:
            return result(viol("redcal-wrong", f"all at once ({desc}): {m}"), ev, True, st)
        for i, (nint, where, faults) in enumerate(case["variants"]):
            r = job(f"v{i}", nint, where, faults, 5 + i)
            if r.status != "ok":
                return result(viol("redcal-fails", f"{nint} integrations at a time ({desc}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            got = self.read(f"{scratch}/realv{i}")
            m = self.check(case, v, got, out, o) or self.apart(ref, got)
            if m:
                return result(viol("redcal-pieces", f"{nint} integrations at a time ({desc}): {m}"), ev, True, st)
        st.add("probe:excluded", int(out.sum()))
        return result(None, ev, True, st, summary={"integrations": len(ts), "excluded": int(out.sum()), "mode": case["mode"]})

    def read(self, d):
        r = dict(first=D.read_calfits(f"{d}/zen.1.first.calfits"), omni=D.read_calfits(f"{d}/zen.1.omni.calfits"), vis=D.read_uvh5(f"{d}/zen.1.omni_vis.uvh5"))
        r["meta"] = stages.h5_content(f"{d}/zen.1.redcal_meta.hdf5")
        return r

    def check(self, case, v, r, out, o):
        nf = case["nf"]
        dead = np.zeros((len(v.times), nf), bool)
        dead[out] = True
        dead[:, :case["low"]] = True
        dead[:, nf - case["high"]:] = True
        for w in ("first", "omni"):
            c = r[w]
            if not (len(c["times"]) == len(v.times) and np.abs(c["times"] - v.times).max() < 1e-8):
                return f"{w}: times {c['times'].tolist()}, expected {v.times.tolist()}"
            for k, f in c["flags"].items():
                if not f[dead].all():
                    return f"{w}: {k} is not flagged at excluded integrations or channels, e.g. {np.argwhere(dead & ~f)[0].tolist()}"
                if k[0] in o["ex"] and not f.all():
                    return f"{w}: excluded antenna {k} is not flagged"
        good = [k for k in r["omni"]["flags"] if not r["omni"]["flags"][k].all()]
        if not dead.all() and not case["bad"]:
            for a in sorted(v.antpos):
                if a in o["ex"]:
                    continue
                for p in r["omni"]["pols"]:
                    f = r["omni"]["flags"].get((a, p))
                    if f is None or (f != dead).any():
                        if len(good) == 0 or len(v.antpos) - len(o["ex"]) < 4:
                            continue        # too few antennas to calibrate redundantly
                        return f"omni: antenna {a} {p}: flags differ from the excluded integrations and channels at {np.argwhere(f != dead)[0].tolist() if f is not None else None}"
        # gains times visibility solutions reproduce the data, integration by integration
        tol = 25 * case["noise"]
        for k in r["vis"]["data"]:
            if not (r["vis"]["times_of"][k[:2]].shape == v.times.shape and np.abs(r["vis"]["times_of"][k[:2]] - v.times).max() < 1e-8):
                return f"visibility solutions of {k[:2]} are at other times"
            if not r["vis"]["flags"][k][dead].all():
                return f"visibility solution {k} is not flagged at excluded integrations or channels"
            if case["bad"]:
                continue
            vec = np.round((v.antpos[k[1]] - v.antpos[k[0]]) / 14.6)
            for i, j in v.antpairs:
                if i == j:
                    continue
                for (a, b) in ((i, j), (j, i)):
                    if not np.array_equal(np.round((v.antpos[b] - v.antpos[a]) / 14.6), vec):
                        continue
                    ka, kb = (a, D.jpol(k[2][0])), (b, D.jpol(k[2][1]))
                    ok = ~(r["omni"]["flags"][ka] | r["omni"]["flags"][kb] | r["vis"]["flags"][k])
                    d = D.get(v.data, (a, b, k[2]))
                    m = r["omni"]["gains"][ka] * np.conj(r["omni"]["gains"][kb]) * r["vis"]["data"][k]
                    bad = ok & (np.abs(d - m) > tol * max(1, np.abs(d).max()))
                    if bad.any():
                        ix = tuple(int(q) for q in np.argwhere(bad)[0])
                        return f"gains times visibility solution {k} do not give baseline {(a, b)} at {ix}: {m[ix]}, data {d[ix]}"
        return None

    def apart(self, ref, got):
        for w in ("first", "omni"):
            m = cal_apart(ref[w], got[w], 2e-3)
            if m:
                return f"{w}: {m}"
        if set(ref["vis"]["data"]) != set(got["vis"]["data"]):
            return "visibility solutions of other baselines"
        for k in sorted(ref["vis"]["data"]):
            f = ref["vis"]["flags"][k]
            if not np.array_equal(f, got["vis"]["flags"][k]):
                return f"visibility flags {k} differ"
            if not np.array_equal(ref["vis"]["nsamples"][k], got["vis"]["nsamples"][k]):
                return f"visibility sample counts {k} differ"
            if (near(ref["vis"]["data"][k], got["vis"]["data"][k], 2e-3) & ~f).any():
                return f"visibility solution {k} differs"
        if set(ref["meta"]) != set(got["meta"]):
            return f"metadata {sorted(set(ref['meta']) ^ set(got['meta']))[:3]}"
        for k in sorted(ref["meta"]):
            x, y = np.asarray(ref["meta"][k]), np.asarray(got["meta"][k])
            if x.dtype.kind in "fc" and (x.shape != y.shape or (near(x, y, 2e-3)).any()):
                return f"metadata {k} differs: {y.ravel()[:3]}, all at once {x.ravel()[:3]}"
        return None

    def shrink(self, case, scratch):
        for k, z in (("bad", False), ("ex", False), ("low", 0), ("high", 0), ("stretch", 1), ("sun", "none"), ("mode", "1pol")):
            if case[k] != z:
                yield cp(case, **{k: z})
        for k, lo in (("nants", 6), ("nt", 2)):
            if case[k] > lo:
                yield cp(case, **{k: case[k] - 1})
        for i, x in enumerate(case["variants"]):
            for y in ([x[0], x[1], []], [x[0], 0, x[2]]):
                if y != x:
                    yield cp(case, variants=case["variants"][:i] + [y] + case["variants"][i + 1:])


class Abscal(Scenario):
    lists = ("variants",)
    minlen = {"variants": 1}

    def gen(self, rng):
        nt = rng.randint(1, 6)
        vs = [[rng.choice([1, 1, 2, 3, nt, nt + 2]), rng.randrange(2), pick_faults(rng, rng.choice([0, 0, 1]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for _ in range(rng.choice([1, 1, 2]))]
        return {"seed": rng.randrange(1 << 30), "nants": rng.choice([4, 5, 6]), "nt": nt, "nf": rng.choice([8, 12]), "time_major": rng.random() < .5, "sun": rng.choice(["none", "none", "rise", "set", "noon", "night"]),
                "cut": rng.randrange(0, 7), "shift": rng.choice([0, 0, .4, -.4]), "stretch": 1, "npol": rng.choice([1, 2, 2, 4]), "nmodel": rng.randint(1, 3), "mfirst": rng.choice([-2, -1, 0, 0, 1, 2]), "mlast": rng.choice([2, 1, 0, 0, -1, -2]),
                "moff": rng.choice([0, 0, .2, -.3]), "night": rng.choice([0, 1, -2]), "mstep": rng.choice([1, 1, 2]), "mflag": rng.random() < .3, "msun": rng.random() < .15, "dflag": rng.random() < .3, "delta": rng.random() < .5, "skiplin": rng.random() < .3,
                "shuf": rng.random() < .5, "refant": rng.random() < .7, "variants": vs}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        ap = D.grid_antpos(rng, case["nants"], compact=True)
        ts, horizon, out = times_and_horizon(case)
        nt = len(ts)
        pols = {1: ["ee"], 2: ["nn", "ee"], 4: ["nn", "ee", "ne", "en"]}[case["npol"]]
        v = D.Vis(ap, stages.all_pairs(ap), pols, ts, wide(case["nf"]), case["time_major"])
        g = varying_gains(case["seed"], ap, pols, nt, v.freqs)
        corrupted(v, sky(case["seed"], ap, v.antpairs, pols, v.lsts, v.freqs), g, 1e-4, nr)
        if case["dflag"]:
            for k in v.keys():
                v.flags[k] |= nr.random(v.flags[k].shape) < .05
        inp = v.write(f"{scratch}/d.uvh5")
        # the redundant solution: the true gains up to an amplitude and a phase gradient of their own in every integration
        rg = {}
        for q in ("n", "e"):
            A, ph, gx, gy = 1 + .2 * nr.uniform(-1, 1, nt), nr.uniform(-1, 1, nt), nr.uniform(-.01, .01, nt), nr.uniform(-.01, .01, nt)
            for a in sorted(ap):
                if (a, D.jpol(q)) in g and any(q in p for p in pols):
                    rg[a, D.jpol(q)] = g[a, D.jpol(q)] * (A * np.exp(1j * (ph + gx * ap[a][0] + gy * ap[a][1])))[:, None]
        c = stages.gain_cal(ap, rg, ts, v.freqs, case["seed"], flag_frac=.02)
        if case["seed"] % 3 == 0:
            c.flags[sorted(ap)[-1], sorted(c.pols)[0]][:] = True
        cal = c.write(f"{scratch}/zen.omni.calfits")
        # the model: another night at the same sidereal times, on a grid of its own
        mi = np.arange(case["mfirst"], nt + case["mlast"], case["mstep"])
        if not len(mi):
            mi = np.array([0])
        step = D.DT * case["stretch"]
        mt = ts[0] + case["night"] * SIDEREAL + (mi + case["moff"]) * step
        if len(mi) < 2:
            mt = ts[0] + case["night"] * SIDEREAL + (np.array([mi[0], mi[0] + 1]) + case["moff"]) * step
        mfiles, mflags = [], None
        nm = min(case["nmodel"], len(mt) // 2 or 1)
        cuts = np.array_split(np.arange(len(mt)), nm)
        chan = rng.randrange(case["nf"])
        for i, ix in enumerate(cuts):
            m = D.Vis(ap, v.antpairs, pols, mt[ix], v.freqs, case["time_major"])
            corrupted(m, sky(case["seed"], ap, m.antpairs, pols, m.lsts, m.freqs), None, 1e-4, nr)
            if case["mflag"]:
                for k in m.keys():
                    m.flags[k][:, chan] = True
            mfiles.append(m.write(f"{scratch}/model{i}.uvh5", vis_units="Jy"))
        if case["shuf"]:
            rng.shuffle(mfiles)
        malt = sun_alt(mt)
        mh = 90. if not case["msun"] else float(np.median(malt) + 1e-3)
        o = dict(horizon=horizon, mhorizon=mh, limit=.5, iter=30, delta=case["delta"], skiplin=case["skiplin"],
                 refant={q: (sorted(ap)[1], q) for q in c.pols} if case["refant"] else None)

        def job(tag, nint, where, faults, seed):
            return finish(st, ev, abscal_job, lambda k, clob: (inp, cal, mfiles, f"{scratch}/{k}{tag}.abs.calfits", nint, o, clob), where, faults, seed)
        # which integrations have a model within the allowed distance
        ml = D.lsts_of(tuple(mt))
        okm = malt <= mh
        dl = np.abs((v.lsts[:, None] - ml[None, okm] + np.pi) % (2 * np.pi) - np.pi) if okm.any() else np.full((nt, 1), 9.)
        lstep = np.median(np.diff(np.unwrap(ml[okm]))) if okm.sum() > 1 else None
        desc = f"{nt} integrations, Sun excludes {np.where(out)[0].tolist()}, model integrations at {((mi + case['moff'])).tolist()}"
        r = job("ref", None, 0, [], 0)
        if r.status != "ok":
            return result(viol("abscal-fails", f"all at once ({desc}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        ref = D.read_calfits(f"{scratch}/realref.abs.calfits")
        m = self.check(case, v, c, ref, out, dl, lstep, chan)
        if m:
            return result(viol("abscal-wrong", f"all at once ({desc}): {m}"), ev, True, st)
        # without a given reference antenna the choice between equally good ones is free, and with it phases and propagated flags
        every, what = ("gains", "flags", "quals", "total_qual"), ("quals", "total_qual")
        for i, (nint, where, faults) in enumerate(case["variants"]):
            r = job(f"v{i}", nint, where, faults, 5 + i)
            if r.status != "ok":
                return result(viol("abscal-fails", f"{nint} integrations at a time ({desc}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            got = D.read_calfits(f"{scratch}/realv{i}.abs.calfits")
            m = self.check(case, v, c, got, out, dl, lstep, chan) or cal_apart(ref, got, 2e-3, what if not case["refant"] else every)
            if m is None and case["delta"] and case["refant"]:
                m = cal_apart(D.read_calfits(f"{scratch}/realref.delta.calfits"), D.read_calfits(f"{scratch}/realv{i}.delta.calfits"), 2e-3)
            if m:
                return result(viol("abscal-pieces", f"{nint} integrations at a time ({desc}): {m}"), ev, True, st)
        st.add("probe:calibrated", int(sum((~f).any(1).sum() for f in ref["flags"].values()) > 0))
        return result(None, ev, True, st, summary={"integrations": nt, "models": len(mfiles)})

    def check(self, case, v, c, r, out, dl, lstep, chan):
        if not (len(r["times"]) == len(v.times) and np.abs(r["times"] - v.times).max() < 1e-8):
            return f"times {r['times'].tolist()}, expected {v.times.tolist()}"
        nearest = dl.min(1)
        flagged_t = np.array([all(f[t].all() for f in r["flags"].values()) for t in range(len(v.times))])
        for t in range(len(v.times)):
            if out[t] and not flagged_t[t]:
                return f"integration {t}, excluded for the Sun, is not flagged"
            if lstep is not None and nearest[t] > 1.5 * lstep and not flagged_t[t]:
                return f"integration {t} has no matching model integration but is not flagged"
            if lstep is not None and nearest[t] < .45 * lstep and not out[t] and flagged_t[t]:
                return f"integration {t} has a matching model integration but is flagged"
        for k in c.keys():
            if (c.flags[k] & ~r["flags"][k]).any():
                return f"flag of the redundant solution lost for {k}"
            if case["mflag"] and not r["flags"][k][:, chan].all():
                return f"channel {chan}, flagged throughout the model, is not flagged for {k}"
        if case["moff"] == 0 and case["night"] == 0:
            tol = .03
            sk = sky(case["seed"], v.antpos, v.antpairs, v.pols, v.lsts, v.freqs)
            for (i, j, q) in v.keys():
                if i == j or q[0] != q[1]:
                    continue
                ki, kj = (i, D.jpol(q[0])), (j, D.jpol(q[1]))
                ok = ~(r["flags"][ki] | r["flags"][kj] | v.flags[i, j, q]) & (nearest < 1e-7)[:, None]
                d = v.data[i, j, q] / (r["gains"][ki] * np.conj(r["gains"][kj]))
                bad = ok & (np.abs(d - sk[i, j, q]) > tol * np.abs(sk[i, j, q]).max())
                if bad.any():
                    ix = tuple(int(z) for z in np.argwhere(bad)[0])
                    return f"data calibrated with the solution are not the model for {(i, j, q)} at {ix}: {d[ix]}, model {sk[i, j, q][ix]}"
        return None

    def shrink(self, case, scratch):
        for k, z in (("mflag", False), ("msun", False), ("dflag", False), ("delta", False), ("sun", "none"), ("npol", 1), ("nmodel", 1), ("mstep", 1), ("moff", 0), ("night", 0), ("shuf", False), ("refant", True)):
            if case[k] != z:
                yield cp(case, **{k: z})
        if case["nt"] > 1:
            yield cp(case, nt=case["nt"] - 1)
        for i, x in enumerate(case["variants"]):
            for y in ([x[0], x[1], []], [x[0], 0, x[2]]):
                if y != x:
                    yield cp(case, variants=case["variants"][:i] + [y] + case["variants"][i + 1:])


SCENARIOS = {"redcal": Redcal(), "abscal": Abscal()}
