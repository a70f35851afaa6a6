"""C18: smoothing a night of calibration files keeps every file's own integrations."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import data as D
from sim.base import Scenario, Stats, cp, pick_faults, result, viol
from scen import stages
from scen.c08 import FAULTS, finish


def antenna_flag_file(path, antpos, flags, times, freqs, waterfall):
    """UVFlag file with one waterfall per antenna (or, waterfall, one per polarization)."""
    from pyuvdata import UVFlag
    c = D.Cal(antpos, sorted({k[0] for k in flags}), sorted({k[1] for k in flags}, reverse=True), times, freqs).fill(np.random.default_rng(0), flag_frac=0, full_flag=0)
    for k in c.keys():
        c.flags[k] = flags[k]
    uvf = UVFlag(c.to_uvcal(), mode="flag", copy_flags=True)
    if waterfall:
        uvf.to_waterfall(method="and", keep_pol=True)
        uvf.to_flag()
    uvf.write(path, clobber=True)
    return path


def smooth_job(files, flagfiles, src, dst, o, clobber):
    import warnings
    warnings.simplefilter("ignore")
    if o["cli"]:
        argv = list(files) + ["--infile_replace", src, "--outfile_replace", dst, "--axis", o["axis"], "--method", "clean" if (o["axis"], o["method"]) == ("freq", "CLEAN") else o["method"], "--freq_threshold", 1.0, "--time_threshold", 1.0, "--ant_threshold", o["antth"],
                              "--freq_scale", 25., "--time_scale", 1500.]
        argv += ["--clobber"] if clobber else []
        argv += ["--pick_refant"] if o["refant"] else []
        argv += (["--flag_file_list"] + list(flagfiles)) if flagfiles else []
        return stages.script("smooth_cal_run.py", *argv)
    from hera_cal.smooth_cal import CalibrationSmoother
    cs = CalibrationSmoother(list(files), flag_file_list=list(flagfiles), pick_refant=o["refant"], propagate_refant_flags=True, ant_threshold=o["antth"], ignore_calflags=o["ignore"])
    if o["axis"] == "both":
        cs.time_freq_2D_filter(freq_scale=25., time_scale=1500., method=o["method"], skip_flagged_edges=o["edges"])
    elif o["axis"] == "freq":
        cs.filter_1d(filter_scale=25., mode="dpss_leastsq" if o["method"] == "DPSS" else "clean", ax="freq", **({"eigenval_cutoff": [1e-9]} if o["method"] == "DPSS" else {}))
    cs.write_smoothed_cal(output_replace=(src, dst), clobber=clobber)


def alone_job(g, w, freqs, grid, o):
    """Smooth every antenna by itself."""
    import warnings
    warnings.simplefilter("ignore")
    from hera_cal import smooth_cal
    out = {}
    for k in g:
        if o["axis"] == "both":
            out[k] = smooth_cal.time_freq_2D_filter(g[k].copy(), w[k].copy(), freqs, grid, freq_scale=25., time_scale=1500., method=o["method"], skip_flagged_edges=o["edges"], tol=1e-9, cached_input={})[0]
        else:
            out[k] = smooth_cal.filter_1d(g[k].copy(), w[k].copy(), freqs, ax="freq", filter_scale=25., tol=1e-9, skip_wgt=.1, mode="dpss_leastsq" if o["method"] == "DPSS" else "clean", cache={},
                                          **({"eigenval_cutoff": [1e-9]} if o["method"] == "DPSS" else {}))[0]
    return out


class Smooth(Scenario):
    lists = ("variants", "nts")
    minlen = {"variants": 0, "nts": 1}

    def gen(self, rng):
        nfiles = rng.randint(1, 5)
        cli = rng.random() < .4
        axis = rng.choice(["none", "none", "both", "both", "freq", "freq"])
        vs = [[rng.randrange(1 << 20), rng.randrange(2), pick_faults(rng, rng.choice([0, 1, 1, 2]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for _ in range(rng.choice([1, 1, 2]))]
        return {"seed": rng.randrange(1 << 30), "nts": [rng.randint(2, 4) if rng.random() < .5 else 3 for _ in range(nfiles)], "gaps": rng.choice([0, 0, 1, 1]), "nants": rng.randint(3, 5), "nf": rng.choice([8, 12]),
                "npol": rng.choice([1, 2, 2]), "flagged": rng.choice([0, .1, .1]), "bigflag": rng.random() < .3, "ext": rng.choice(["none", "none", "antenna", "waterfall", "baseline"]), "extsplit": rng.choice(["same", "one", "other"]),
                "fullant": rng.random() < .3, "nan": rng.random() < .3, "cli": cli, "axis": axis, "method": rng.choice(["DPSS", "DPSS", "CLEAN"]), "refant": rng.random() < .5, "antth": rng.choice([1., 1., .5]),
                "edges": rng.random() < .5, "ignore": not cli and rng.random() < .15, "ants": rng.random() < .2, "names": rng.choice(["time", "time", "random"]), "variants": vs}

    def build(self, case, scratch):
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        ap = D.grid_antpos(rng, case["nants"], compact=True)
        freqs = 110e6 + np.arange(case["nf"]) * (48e6 / case["nf"])
        pols = ["Jee"] if case["npol"] == 1 else ["Jnn", "Jee"]
        t, starts = .3, []
        for i, nt in enumerate(case["nts"]):
            starts.append(t)
            t += nt * D.DT + (case["gaps"] and rng.randint(0, 3) * D.DT)
        os.makedirs(scratch + "/in", exist_ok=True)
        ref = sorted(ap)[rng.randrange(len(ap))]
        amp = {(a, p): (nr.uniform(.7, 1.4), nr.uniform(-20e-9, 20e-9), nr.uniform(-3, 3)) for a in sorted(ap) for p in pols}
        dead = (sorted(ap)[0] if sorted(ap)[0] != ref else sorted(ap)[1], pols[0])
        cals, files = [], []
        nums = list(range(len(case["nts"])))
        if case["names"] == "random":
            rng.shuffle(nums)
        for i, nt in enumerate(case["nts"]):
            ts = D.times_for(D.JD0, starts[i], nt)
            ants = sorted(ap)
            if case["ants"] and i == len(case["nts"]) - 1 and len(ants) > 3:
                ants = [a for a in ants if a == ref or a != ants[-1]]
            c = D.Cal(ap, ants, pols, ts, freqs).fill(nr, flag_frac=case["flagged"], full_flag=0)
            common = nr.random((nt, case["nf"])) < (.05 if case["flagged"] else 0)
            for k in c.keys():
                A, tau, ph = amp[k]
                drift = 1 + .2 * np.sin(2 * np.pi * (ts - D.JD0) / .02 + ph)
                c.gains[k] = (A * drift[:, None] * np.exp(1j * (2 * np.pi * freqs * tau + ph)[None, :] + .2j * nr.uniform(-1, 1, (nt, 1)))).astype(np.complex64)
                if k[0] == ref:
                    c.flags[k][:] = False          # an antenna good enough to refer phases to
                c.flags[k] |= common
                if case["fullant"] and k == dead:
                    c.flags[k][:] = True
                if case["bigflag"] and k == dead:
                    c.flags[k] |= nr.random((nt, case["nf"])) < .85
                if case["nan"]:
                    c.gains[k][c.flags[k] & (nr.random(c.flags[k].shape) < .3)] = np.nan
            cals.append(c)
            files.append(c.write(f"{scratch}/in/zen.{nums[i]:02d}.abs.calfits"))
        alltimes = np.concatenate([c.times for c in cals])
        everyone = [(a, p) for a in sorted(ap) for p in pols]
        # external flags: the reference antenna's are common to all
        ext, ffiles = None, []
        if case["ext"] != "none":
            n = len(alltimes)
            com = nr.random((n, case["nf"])) < .05
            ext = {}
            wf = {p: nr.random((n, case["nf"])) < .08 for p in pols}
            for k in everyone:
                ext[k] = wf[k[1]].copy() if case["ext"] == "waterfall" else com | ((nr.random((n, case["nf"])) < .1) if k[0] != ref else False)
            cuts = list(np.cumsum(case["nts"])[:-1])
            if case["extsplit"] == "one":
                cuts = []
            elif case["extsplit"] == "other":
                cuts = sorted({rng.randrange(1, n) for _ in range(2)})
            blflags = None
            if case["ext"] == "baseline":
                prs = stages.all_pairs(ap)
                vp = [p[1:] for p in pols]
                blflags = {(i, j, q): nr.random((n, case["nf"])) < .02 for i, j in prs for q in vp if i != j}
                prs = [p for p in prs if p[0] != p[1]]
                ext = {k: np.zeros((n, case["nf"]), bool) for k in everyone}
                for (i, j, q), f in blflags.items():
                    if ref in (i, j):
                        f[:] = com
                for (i, j, q), f in blflags.items():
                    ext[i, D.jpol(q[0])] |= f
                    ext[j, D.jpol(q[1])] |= f
            for m, ix in enumerate(np.split(np.arange(n), cuts)):
                if len(ix) == 0:
                    continue
                path = f"{scratch}/in/flags.{m}.h5"
                if case["ext"] == "baseline":
                    v = D.Vis(ap, prs, vp, alltimes[ix], freqs, False).fill(nr)
                    D.flag_file(v, path, {k: f[ix] for k, f in blflags.items()})
                else:
                    antenna_flag_file(path, ap, {k: f[ix] for k, f in ext.items()}, alltimes[ix], freqs, case["ext"] == "waterfall")
                ffiles.append(path)
        # what the written flags should be, over the whole night
        flags, pos = {}, np.concatenate([[0], np.cumsum(case["nts"])])
        for k in everyone:
            flags[k] = np.concatenate([(np.zeros_like(c.flags[k]) if case["ignore"] else c.flags[k]) if k in c.flags else np.ones((len(c.times), case["nf"]), bool) for c in cals])
            if ext is not None:
                flags[k] = flags[k] | ext[k]
        return dict(ap=ap, freqs=freqs, pols=pols, cals=cals, files=files, ffiles=ffiles, flags=flags, pos=pos, times=alltimes, keys=everyone, ref=ref)

    def execute(self, case, scratch):
        st, ev = Stats(), []
        case = dict(case)
        if case["ignore"]:
            case["nan"] = False          # unflagged gains have to be finite
        if case["ext"] == "baseline":
            case["fullant"] = False
        b = self.build(case, scratch)
        nt = len(b["times"])
        if nt < 3:
            return result(None, ev, False, st)
        o = {k: case[k] for k in ("cli", "axis", "method", "refant", "antth", "edges", "ignore")}
        if case["cli"]:
            o["edges"] = True
        want = {k: f.copy() for k, f in b["flags"].items()}
        most = max((~f).sum() for f in want.values())
        # samples flagged for every antenna are flagged throughout, then antennas with too few good samples
        for k in want:
            n = int((~want[k]).sum())
            if n < (1 - case["antth"]) * most:
                want[k][:] = True
            elif case["antth"] < 1 and abs(n - (1 - case["antth"]) * most) < 1:
                return result(None, ev, False, st)
        order0 = list(range(len(b["files"])))
        runs = [[None, 0, []]] + case["variants"]
        desc = f"{case['nts']} integrations per file, {'script' if case['cli'] else 'module'}, {case['axis']} {case['method']}, flag files {case['ext']} {case['extsplit']}"
        ref = None
        for i, (ls, where, faults) in enumerate(runs):
            lst, fl = list(b["files"]), list(b["ffiles"])
            if ls is not None:
                random.Random(ls).shuffle(lst)
                random.Random(ls + 1).shuffle(fl)

            def args(kind, clob):
                os.makedirs(f"{scratch}/{kind}{i}", exist_ok=True)
                return lst, fl, "/in/", f"/{kind}{i}/", o, clob
            r = finish(st, ev, smooth_job, args, where, faults, 5 + i)
            what = f"{desc}; files listed in order {[b['files'].index(f) for f in lst]}"
            if r.status != "ok":
                return result(viol("smooth-fails", f"{what}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            got = []
            for f in b["files"]:
                p = f.replace("/in/", f"/real{i}/")
                try:
                    got.append(D.read_calfits(p))
                except Exception as e:
                    return result(viol("smooth-unreadable", f"{what}: {os.path.basename(p)}: {type(e).__name__}: {e}"), ev, True, st)
            m = self.check(case, b, got, want, o)
            if m:
                return result(viol("smooth-wrong", f"{what}: {m}"), ev, True, st)
            if ref is None:
                ref = got
                if case["axis"] != "none":
                    m = self.alone(case, b, got, o)
                    if m:
                        return result(viol("smooth-neighbours", f"{what}: {m}"), ev, True, st)
            else:
                for f, x, y in zip(b["files"], ref, got):
                    m = self.apart(x, y)
                    if m:
                        return result(viol("smooth-order", f"{what}: {os.path.basename(f)}: {m}"), ev, True, st)
        return result(None, ev, True, st, summary={"files": len(b["files"]), "axis": case["axis"], "script": case["cli"]})

    def apart(self, x, y):
        for w in ("gains", "flags", "quals", "total_qual"):
            if set(x[w]) != set(y[w]):
                return f"{w} of other antennas"
            for k in sorted(x[w]):
                bad = x[w][k] != y[w][k] if w == "flags" else ~np.isclose(x[w][k], y[w][k], rtol=1e-4, atol=1e-4, equal_nan=True)
                if bad.any():
                    ix = tuple(int(q) for q in np.argwhere(bad)[0])
                    return f"{w}{k} at {ix}: {y[w][k][ix]}, in chronological order {x[w][k][ix]}"
        return None

    def check(self, case, b, got, want, o):
        for n, (c, g) in enumerate(zip(b["cals"], got)):
            name = os.path.basename(b["files"][n])
            if not (len(g["times"]) == len(c.times) and np.abs(g["times"] - c.times).max() < 1e-8):
                return f"{name}: times {g['times'].tolist()}, its own {c.times.tolist()}"
            if not np.allclose(g["freqs"], c.freqs):
                return f"{name}: channels differ"
            if set(g["gains"]) != set(c.keys()):
                return f"{name}: antennas {sorted(set(g['gains']))}, its own {sorted(c.keys())}"
            sl = slice(b["pos"][n], b["pos"][n + 1])
            for k in sorted(c.keys()):
                f = want[k][sl]
                if case["axis"] == "none":
                    bad = g["flags"][k] != f
                else:
                    bad = f & ~g["flags"][k]        # filters may add flags
                if bad.any() and not (case["refant"] and not case["cli"] and not (bad & f).any()):
                    return f"{name}: flags of {k} at {np.argwhere(bad)[0].tolist()}: {g['flags'][k][tuple(np.argwhere(bad)[0])]}"
                if not np.isfinite(g["gains"][k]).all():
                    return f"{name}: gains of {k} are not finite"
        if case["axis"] != "none":
            return None
        for p in b["pols"]:
            cands = [k for k in b["keys"] if k[1] == p] if case["refant"] else [None]
            errs = []
            for r in cands:
                err = None
                for n, (c, g) in enumerate(zip(b["cals"], got)):
                    for k in sorted(c.keys()):
                        if k[1] != p or err:
                            continue
                        ok = ~g["flags"][k]
                        ph = 1
                        if r is not None:
                            if r not in c.gains:
                                err = err or f"{r} is not in every file"
                                continue
                            gr = np.asarray(c.gains[r], complex)
                            with np.errstate(all="ignore"):
                                ph = np.where(np.isfinite(gr), np.conj(gr) / np.abs(gr), np.nan)
                        bad = ok & ~np.isclose(g["gains"][k], c.gains[k] * ph, rtol=1e-4, atol=1e-5)
                        if bad.any():
                            ix = tuple(int(q) for q in np.argwhere(bad)[0])
                            err = f"{os.path.basename(b['files'][n])}: gain of {k} at {ix} is {g['gains'][k][ix]}, read {c.gains[k][ix]}" + (f", reference {r}" if r else "")
                        q = g["quals"][k][ok] if g["quals"] else np.zeros(1)
                        if not err and len(q) and np.abs(q).max() > 1e-3:
                            err = f"{os.path.basename(b['files'][n])}: relative difference of {k} is {np.abs(q).max()} without smoothing"
                errs.append(err)
            if all(errs):
                return errs[0] if len(cands) == 1 else f"no reference antenna of {p} explains the gains; e.g. {errs[0]}"
        return None

    def alone(self, case, b, got, o):
        """Every antenna as if it were the only one (no cache shared with others)."""
        if case["refant"]:
            return None
        dt = np.median(np.diff(b["times"]))
        ix = np.round((b["times"] - b["times"][0]) / dt).astype(int)
        grid = b["times"][0] + dt * (np.arange(ix[-1] + 1) + .5)
        gg, ww = {}, {}
        out = {k: np.concatenate([g["gains"][k] if k in g["gains"] else np.ones((len(g["times"]), case["nf"])) for g in got]) for k in b["keys"]}
        oflag = {k: np.concatenate([g["flags"][k] if k in g["flags"] else np.ones((len(g["times"]), case["nf"]), bool) for g in got]) for k in b["keys"]}
        for k in b["keys"]:
            x = np.ones((len(grid), case["nf"]), complex)
            w = np.zeros((len(grid), case["nf"]))
            raw = np.concatenate([c.gains[k] if k in c.gains else np.ones((len(c.times), case["nf"]), complex) for c in b["cals"]])
            x[ix] = np.where(np.isfinite(raw), raw, 1)
            w[ix] = ~b["flags"][k]
            if oflag[k].all() or not w.any():
                continue
            gg[k], ww[k] = x, w
        from sim import peer
        r = peer.run_job(0, alone_job, gg, ww, b["freqs"], grid, o, seed=1)
        if r.status != "ok":
            return f"alone: {r.brief()}\n{r.tb[-800:]}"
        for k, y in r.value.items():
            bad = ~oflag[k] & ~np.isclose(out[k], y[ix], rtol=1e-3, atol=1e-3)
            if bad.any():
                j = tuple(int(q) for q in np.argwhere(bad)[0])
                return f"smoothed gain of {k} at {j} is {out[k][j]} together with the others, {y[ix][j]} alone"
        return None

    def shrink(self, case, scratch):
        for k, z in (("gaps", 0), ("flagged", 0), ("bigflag", False), ("ext", "none"), ("extsplit", "same"), ("fullant", False), ("nan", False), ("refant", False), ("antth", 1.), ("axis", "none"), ("ants", False),
                     ("npol", 1), ("names", "time"), ("ignore", False), ("cli", False)):
            if case[k] != z:
                yield cp(case, **{k: z})
        if case["nants"] > 3:
            yield cp(case, nants=case["nants"] - 1)
        for i, x in enumerate(case["variants"]):
            for y in ([x[0], x[1], []], [x[0], 0, x[2]]):
                if y != x:
                    yield cp(case, variants=case["variants"][:i] + [y] + case["variants"][i + 1:])


SCENARIOS = {"smooth": Smooth()}
