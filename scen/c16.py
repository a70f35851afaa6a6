"""C16: filtering and averaging do not depend on how the work is chunked."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import data as D, oracle, peer
from sim.base import Scenario, Stats, cp, pick_faults, result, viol
from scen import stages
from scen.c08 import FAULTS, finish

OUTS = ("res", "clean", "filled")


def filter_job(kind, files, cals, out, names, nbl, bls, cache, o):
    """One filtering job; out is a prefix of the output files."""
    kw = {n: f"{out}.{k}.uvh5" if k in names else None for n, k in (("res_outfilename", "res"), ("CLEAN_outfilename", "clean"), ("filled_outfilename", "filled"))}
    if cache is not None:
        kw.update(cache_dir=cache[0], read_cache=cache[1], write_cache=cache[2])
    if o["mode"] == "clean":
        kw.update(maxiter=10)
    bls = None if bls is None else [tuple(b) for b in bls]
    common = dict(baseline_list=bls, calfile_list=cals, Nbls_per_load=nbl, factorize_flags=o["fact"], time_thresh=o["thresh"], clobber=o["clobber"],
                  external_flags=o["ext"], overwrite_flags=o["over"], flag_yaml=o["yaml"], spw_range=o["spw"], polarizations=o["pols"], mode=o["mode"],
                  tol=o["tol"], skip_wgt=o["skip"], **kw)
    if kind == "delay":
        from hera_cal import delay_filter
        delay_filter.load_delay_filter_and_write(files, apply_flag_to_nsample=o["nsamp"], standoff=o["standoff"], min_dly=o["dly"], horizon=1., skip_flagged_edges=o["edges"],
                                                 **common)
    else:
        from hera_cal import frf
        frf.load_tophat_frfilter_and_write(files, case=o["case"], max_frate_coeffs=o["coeffs"], skip_autos=o["autos"], ninterleave=o["nint"], wgt_by_nsample=o["nsamp"],
                                           lst_blacklists=o["black"], blacklist_wgt=.01, param_file=o["param"] or "", **common)


def tavg_job(files, out, nav, bls, o, clobber):
    from hera_cal import frf
    frf.time_avg_data_and_write(files, out, t_avg=nav * D.INT_S * o["nint"] + .02, baseline_list=None if bls is None else [tuple(b) for b in bls], rephase=o["rephase"],
                                wgt_by_nsample=o["wgt"] == "n", wgt_by_favg_nsample=o["wgt"] == "f", clobber=clobber, flag_output=None if not o["flg"] else out.replace(".uvh5", ".flags.h5"),
                                ninterleave=o["nint"], equalize_interleave_times=o["eqt"], equalize_interleave_ntimes=o["eqn"])


def red_job(inp, out, tol, clobber):
    stages.script("red_average.py", inp, out, "--bl_error_tol", tol, *(["--clobber"] if clobber else []))


def norm(k):
    return tuple(k) if k[0] <= k[1] else (k[1], k[0], k[2][::-1])


def twins(v):
    """The two cross-hand autocorrelations of an antenna are one another's conjugate."""
    for k in v.keys():
        if k[0] == k[1] and k[2] == "en":
            t = (k[0], k[1], "ne")
            v.data[k], v.flags[k], v.nsamples[k] = np.conj(v.data[t]), v.flags[t].copy(), v.nsamples[t].copy()
    return v


def merge(reads):
    out = dict(data={}, flags={}, nsamples={})
    for r in reads:
        for k in r["data"]:
            n = norm(k)
            if n in out["data"]:
                return f"baseline {k} was written by two jobs", None
            for w in out:
                v = r[w][k]
                out[w][n] = v if n == tuple(k) or w != "data" else np.conj(v)
    return None, out


def apart(ref, got, tol, flagged=True):
    """First difference between two sets of filtered visibilities."""
    a, b = set(ref["data"]), set(got["data"])
    if a != b:
        return f"baselines differ: missing {sorted(a - b)[:4]}, extra {sorted(b - a)[:4]}"
    for k in sorted(a):
        for w in ("flags", "nsamples", "data"):
            x, y = ref[w][k], got[w][k]
            if x.shape != y.shape:
                return f"{w}{k}: shape {y.shape}, all at once {x.shape}"
            if w == "data":
                s = max(1., float(np.abs(x[np.isfinite(x)]).max(initial=0)))
                bad = ~np.isclose(x, y, rtol=0, atol=tol * s, equal_nan=True)
            else:
                bad = x != y
            if bad.any():
                ix = tuple(int(q) for q in np.argwhere(bad)[0])
                return f"{w}{k} differs in {int(bad.sum())} of {bad.size} samples, first at {ix}: {y[ix]}, all at once {x[ix]}"
    return None


class Filter(Scenario):
    lists = ("variants",)
    minlen = {"variants": 1}

    def __init__(self, kind):
        self.kind = kind

    def gen(self, rng):
        delay = self.kind == "delay"
        nf = rng.choice([16, 20]) if delay else rng.choice([2, 3])
        nt = rng.randint(2, 4) if delay else rng.randint(9, 13)
        mode = rng.choice(["dayenu", "dayenu", "dpss_leastsq", "clean"]) if delay else rng.choice(["dpss_leastsq", "dpss_leastsq", "dayenu", "clean"])
        npol = rng.choice([1, 2, 2, 4])
        nfiles = 1 if rng.random() < .7 else 2
        spw = [rng.randint(0, 2), nf - rng.randint(0, 2)] if delay and rng.random() < .3 else None
        c = {"seed": rng.randrange(1 << 30), "nants": rng.choice([2, 3, 3, 4]), "npol": npol, "nt": nt, "nf": nf, "nfiles": nfiles, "time_major": rng.random() < .5,
             "names": sorted(rng.sample(OUTS, rng.choice([1, 2, 3]))), "cal": rng.random() < .4, "drop": rng.choice([0, 0, 1]), "ext": rng.random() < .3, "yaml": rng.random() < .2,
             "light": rng.random() < .5, "sel": rng.random() < .2,
             "opt": dict(mode=mode, fact=rng.random() < .25, thresh=rng.choice([.05, .3]), over=rng.random() < .3, spw=spw, tol=1e-4 if mode == "clean" else 1e-6,
                         skip=rng.choice([0., .1, .5]), nsamp=rng.random() < .35, standoff=rng.choice([50., 150.]), dly=rng.choice([100., 300.]), edges=delay and rng.random() < .2,
                         case=rng.choice(["max_frate_coeffs", "sky", "param_file"]), coeffs=[.024, -.229], autos=rng.random() < .4, nint=rng.choice([1, 1, 2, 3]),
                         black=None if rng.random() < .6 else 1, clobber=True)}
        vs = []
        for _ in range(rng.randint(1, 3)):
            split = nfiles > 1 or rng.random() < .4
            cached = mode == "dayenu" and rng.random() < .7
            nj = rng.randint(1, 3) if split else 1
            order = list(range(nj))
            rng.shuffle(order)
            vs.append({"nbl": None if split else rng.randint(1, 6), "nj": nj, "shuf": rng.randrange(1 << 20), "cache": cached, "warm": cached and rng.random() < .5, "ro": cached and rng.random() < .2,
                       "jobs": [[j, rng.randrange(2), pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for j in order]})
        c["variants"] = vs
        if c["ext"]:
            c["sel"], c["opt"]["spw"] = False, None          # flag files must hold the same channels and polarizations
        return c

    def inputs(self, case, scratch, tag, seed):
        files, cals, vis = [], [], []
        p = {"seed": seed, "time_major": case["time_major"]}
        for i in range(case["nfiles"]):
            v = stages.noise_vis(p, case["nants"], case["npol"], case["nt"], case["nf"], start=.3 + i * case["nt"] * D.DT, seed=seed + i)
            if case["light"]:
                nr = np.random.default_rng(seed + i)
                com = nr.random(v.flags[v.keys()[0]].shape) < .1
                for k in v.keys():
                    v.flags[k] = com.copy() if nr.random() < .7 else com | (nr.random(com.shape) < .05)
            twins(v)
            vis.append(v)
            files.append(v.write(f"{scratch}/{tag}{i}.uvh5"))
            if case["cal"]:
                c = stages.noise_cal(p, v, i, drop=case["drop"])
                cals.append(c.write(f"{scratch}/{tag}{i}.calfits"))
        return files, cals or None, vis

    def execute(self, case, scratch):
        st, ev = Stats(), []
        files, cals, vis = self.inputs(case, scratch, "in", case["seed"])
        o = dict(case["opt"], ext=None, yaml=None, pols=None, param=None)
        nr = np.random.default_rng(case["seed"] + 9)
        if case["ext"]:
            o["ext"] = []
            for i, v in enumerate(vis):
                o["ext"].append(D.flag_file(v, f"{scratch}/ext{i}.h5", {k: nr.random(v.flags[k].shape) < .15 for k in v.keys()}))
            if len(o["ext"]) == 1 and case["seed"] % 2:
                o["ext"] = o["ext"][0]
        if case["yaml"]:
            o["yaml"] = f"{scratch}/f.yaml"
            stages.write_antflag_yaml(o["yaml"], sorted(vis[0].antpos)[:1])
        if case["sel"]:
            o["pols"] = vis[0].pols[:1]
        if o["black"]:
            ls = vis[0].lsts * 12 / np.pi
            o["black"] = [[float(ls[1]), float(ls[1]) + 1e-3]]
        prs = vis[0].antpairs
        if o["case"] == "param_file":
            o["param"] = f"{scratch}/par.yaml"
            with open(o["param"], "w") as f:
                f.write("filter_centers:\n" + "".join(f"  ({a}, {b}): {nr.normal(0, .3) if a != b else 0.:.4f}\n" for a, b in prs))
                f.write("filter_half_widths:\n" + "".join(f"  ({a}, {b}): {nr.uniform(.3, 1.5):.4f}\n" for a, b in prs))
        pols = o["pols"] or vis[0].pols
        want = {norm(b + (p,)) for b in prs for p in pols}

        def job(kind, files_, cals_, out, nbl, bls, cache, where, faults, seed):
            return finish(st, ev, filter_job, lambda k, clob: (self.kind, files_, cals_, f"{scratch}/{k}{out}", case["names"], nbl, bls, cache, o), where, faults, seed)

        r = job("real", files, cals, "ref", None, None, None, 0, [], 0)
        if r.status != "ok":
            return result(viol("filter-fails", f"{self.kind} filter of {len(prs)} baselines at once: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        ref = {}
        for n in case["names"]:
            m, ref[n] = merge([D.read_uvh5(f"{scratch}/realref.{n}.uvh5")])
            if m or set(ref[n]["data"]) != want:
                return result(viol("filter-baselines", f"{n}: {m or ''} missing {sorted(want - set(ref[n]['data']))[:4]}, extra {sorted(set(ref[n]['data']) - want)[:4]}"), ev, True, st)
        warm = None
        for iv, v in enumerate(case["variants"]):
            cache = None
            if v["cache"]:
                cd = f"{scratch}/cache{iv}"
                os.makedirs(cd, exist_ok=True)
                cache = (cd, True, not v["ro"])
                if v["warm"]:
                    if warm is None:
                        warm = self.inputs(case, scratch, "other", case["seed"] + 555)
                    r = job("real", warm[0], warm[1], f"warm{iv}", None, None, (cd, True, True), 0, [], 3)
                    st.add("probe:warm_cache", 1)
                    if r.status != "ok":
                        return result(viol("filter-fails", f"{self.kind} filter with a cold cache: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            lst = list(prs)
            random.Random(v["shuf"]).shuffle(lst)
            reads = {n: [] for n in case["names"]}
            for j, where, faults in v["jobs"]:
                bls = lst[j::v["nj"]] if v["nbl"] is None else None
                r = job("real", files, cals, f"v{iv}.{j}", v["nbl"], bls, cache, where, faults, 10 + j)
                if r.status != "ok":
                    return result(viol("chunk-fails", f"{self.kind} filter, variant {iv} ({v['nbl']} baselines per load, job {j} of {v['nj']}, cache {cache and cache[1:]}): {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
                if bls is not None and not bls:
                    st.add("probe:empty_share", 1)
                    continue
                for n in case["names"]:
                    reads[n].append(D.read_uvh5(f"{scratch}/realv{iv}.{j}.{n}.uvh5"))
            if len({j[0] for j in v["jobs"]}) < v["nj"]:
                continue
            for n in case["names"]:
                m, got = merge(reads[n])
                m = m or apart(ref[n], got, 1e-4)
                if m:
                    return result(viol("chunk-differs", f"{self.kind} filter, {n} product, variant {iv} ({v['nbl']} baselines per load, {v['nj']} jobs, cache {cache and cache[1:]}, warm {v['warm']}): {m}"), ev, True, st)
            st.add("probe:compared", len(case["names"]))
        return result(None, ev, True, st, summary={"baselines": len(prs), "mode": o["mode"], "variants": len(case["variants"])})

    def shrink(self, case, scratch):
        for k in ("cal", "ext", "yaml", "sel", "light"):
            if case[k]:
                yield cp(case, **{k: False})
        o = case["opt"]
        for k, z in (("fact", False), ("over", False), ("spw", None), ("nsamp", False), ("edges", False), ("black", None), ("nint", 1), ("autos", False), ("skip", 0.)):
            if o[k] != z:
                yield cp(case, opt=dict(o, **{k: z}))
        if len(case["names"]) > 1:
            for n in case["names"]:
                yield cp(case, names=[n])
        if case["npol"] > 1:
            yield cp(case, npol=case["npol"] // 2)
        if case["nants"] > 2:
            yield cp(case, nants=case["nants"] - 1)
        for i, v in enumerate(case["variants"]):
            for z in ([j[:2] + [[]] for j in v["jobs"]], [[j[0], 0, j[2]] for j in v["jobs"]]):
                if z != v["jobs"]:
                    yield cp(case, variants=case["variants"][:i] + [dict(v, jobs=z)] + case["variants"][i + 1:])
            if v["warm"]:
                yield cp(case, variants=case["variants"][:i] + [dict(v, warm=False)] + case["variants"][i + 1:])


class TimeAverage(Scenario):
    """Averages of all baselines, by any number of jobs, against their definition."""
    lists = ("jobs",)
    minlen = {"jobs": 1}

    def gen(self, rng):
        nj = rng.randint(1, 4)
        order = list(range(nj))
        rng.shuffle(order)
        nint = rng.choice([1, 1, 2, 3])
        return {"seed": rng.randrange(1 << 30), "nants": rng.choice([2, 3, 4]), "npol": rng.choice([1, 2, 4]), "nts": [rng.randint(2, 6) for _ in range(rng.randint(1, 3))], "nf": rng.randint(1, 4), "time_major": rng.random() < .5,
                "navg": rng.randint(1, 4), "nj": nj, "shuf": rng.randrange(1 << 20), "wrap": rng.random() < .35,
                "opt": dict(nint=nint, rephase=rng.random() < .4, wgt=rng.choice(["n", "n", "f", "u"]), flg=rng.random() < .3, eqt=rng.random() < .4, eqn=rng.random() < .4),
                "jobs": [[j, rng.randrange(2), pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])] for j in order]}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        nt = sum(case["nts"])
        o = case["opt"]
        if nt < 2 * o["nint"]:
            return result(None, ev, False, st)
        start = .3
        if case["wrap"]:
            l0 = D.lsts_of(tuple(D.times_for(D.JD0, .3, 1)))[0]
            start = .3 + (2 * np.pi - l0) / (2 * np.pi) * .99727 - D.DT * random.Random(case["seed"]).randint(1, max(1, nt - 1))
        ts = D.times_for(D.JD0, start, nt)
        p = {"seed": case["seed"], "time_major": case["time_major"]}
        full = stages.noise_vis(p, case["nants"], case["npol"], nt, case["nf"], times=ts)
        twins(full)
        files, a = [], 0
        for i, n in enumerate(case["nts"]):
            v = D.Vis(full.antpos, full.antpairs, full.pols, ts[a:a + n], full.freqs, case["time_major"])
            for w in ("data", "flags", "nsamples"):
                setattr(v, w, {k: getattr(full, w)[k][a:a + n] for k in v.keys()})
            files.append(v.write(f"{scratch}/d{i}.uvh5"))
            a += n
        lst = list(full.antpairs)
        random.Random(case["shuf"]).shuffle(lst)
        got = [[] for _ in range(o["nint"])]
        for j, where, faults in case["jobs"]:
            bls = lst[j::case["nj"]] if case["nj"] > 1 else None
            r = finish(st, ev, tavg_job, lambda k, clob: (files, f"{scratch}/{k}{j}.uvh5", case["navg"], bls, o, clob), where, faults, j)
            if r.status != "ok":
                return result(viol("average-fails", f"time average of {len(bls or lst)} baselines, integrations {case['nts']}, {case['navg']} averaged: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
            if bls is not None and not bls:
                continue
            for i in range(o["nint"]):
                tag = f".interleave_{i}" if o["nint"] > 1 else ""
                got[i].append(D.read_uvh5(f"{scratch}/real{j}{tag}.uvh5"))
        done = {j[0] for j in case["jobs"]}
        mine = {b for j in done for b in (lst[j::case["nj"]] if case["nj"] > 1 else lst)}
        exp = self.expect(case, full, mine)
        for i in range(o["nint"]):
            m, g = merge(got[i])
            m = m or self.check(g, got[i], exp[i])
            if m:
                return result(viol("average-wrong", f"time average (integrations {case['nts']}, {case['navg']} averaged, interleave {i} of {o['nint']}, {case['nj']} jobs): {m}"), ev, True, st)
        return result(None, ev, True, st, summary={"integrations": nt, "navg": case["navg"], "jobs": case["nj"], "wrap": case["wrap"]})

    def expect(self, case, v, mine):
        o = case["opt"]
        out = []
        for i in range(o["nint"]):
            sl = slice(i, None, o["nint"])
            ts, ls = v.times[sl], np.unwrap(v.lsts[sl])
            nav = min(case["navg"], len(ts))
            bins = [list(range(s, min(s + nav, len(ts)))) for s in range(0, len(ts), nav)]
            e = dict(data={}, flags={}, nsamples={}, times=np.array([ts[b].mean() for b in bins]), lsts=np.array([ls[b].mean() for b in bins]))
            for k in v.keys():
                if k[:2] not in mine:
                    continue
                d, f, n = v.data[k][sl].astype(complex), v.flags[k][sl], v.nsamples[k][sl].astype(float)
                D_, F_, N_ = [], [], []
                for b in bins:
                    db, fb, nb = d[b], f[b], n[b]
                    if o["rephase"]:
                        db = oracle.rephase(db, v.antpos[k[0]] - v.antpos[k[1]], v.freqs, ls[b].mean() - ls[b])
                    w = {"n": nb, "f": nb.mean(1, keepdims=True) * np.ones_like(nb), "u": np.ones_like(nb)}[o["wgt"]] * ~fb
                    with np.errstate(all="ignore"):
                        x = (db * w).sum(0) / w.sum(0)
                    D_.append(np.where(w.sum(0) > 0, x, 0))
                    F_.append(fb.all(0))
                    N_.append((nb * ~fb).sum(0))
                e["data"][k], e["flags"][k], e["nsamples"][k] = np.array(D_), np.array(F_), np.array(N_)
            out.append(e)
        if o["nint"] > 1 and (o["eqt"] or o["eqn"]):
            m = min(len(e["times"]) for e in out)
            for e in out:
                for w in ("data", "flags", "nsamples"):
                    e[w] = {k: x[:m] for k, x in e[w].items()}
                e["times"], e["lsts"] = e["times"][:m], e["lsts"][:m]
            if o["eqt"]:
                t = np.mean([e["times"] for e in out], axis=0)
                l = np.mean([e["lsts"] for e in out], axis=0)
                for e in out:
                    e["times"], e["lsts"] = t, l
        return out

    def check(self, g, reads, e):
        a, b = {norm(k) for k in e["data"]}, set(g["data"])
        if a != b:
            return f"baselines differ: missing {sorted(a - b)[:4]}, extra {sorted(b - a)[:4]}"
        for r in reads:
            for ap in r["times_of"]:
                t, l = r["times_of"][ap], r["lsts_of"][ap]
                if t.shape != e["times"].shape or np.abs(t - e["times"]).max() > 1e-7:
                    return f"times of {ap}: {t.tolist()}, expected {e['times'].tolist()}"
                dl = (l - e["lsts"] + np.pi) % (2 * np.pi) - np.pi
                if np.abs(dl).max() > 2e-6:
                    return f"LSTs of {ap}: {l.tolist()}, expected {(e['lsts'] % (2 * np.pi)).tolist()}"
        for k in sorted(e["data"]):
            for w in ("flags", "nsamples", "data"):
                x, y = e[w][k], D.get(g[w], k)
                if w == "data":
                    x = np.where(e["flags"][k], 0, x)
                    y = np.where(e["flags"][k], 0, y)
                bad = x != y if w == "flags" else ~np.isclose(x, y, rtol=2e-5, atol=2e-5)
                if bad.any():
                    ix = tuple(int(q) for q in np.argwhere(bad)[0])
                    return f"{w}{k} differs in {int(bad.sum())} of {bad.size} samples, first at {ix}: {y[ix]}, expected {x[ix]}"
        return None

    def shrink(self, case, scratch):
        o = case["opt"]
        for k, z in (("nint", 1), ("rephase", False), ("flg", False), ("eqt", False), ("eqn", False), ("wgt", "u")):
            if o[k] != z:
                yield cp(case, opt=dict(o, **{k: z}))
        for k, lo in (("nants", 2), ("nf", 1)):
            if case[k] > lo:
                yield cp(case, **{k: case[k] - 1})
        if case["npol"] > 1:
            yield cp(case, npol=case["npol"] // 2)
        if len(case["nts"]) > 1:
            yield cp(case, nts=case["nts"][:-1])
        z = [j[:2] + [[]] for j in case["jobs"]]
        if z != case["jobs"]:
            yield cp(case, jobs=z)


class RedAverage(Scenario):
    """The redundant-averaging script against the definition of the average."""

    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "nants": rng.randint(2, 6), "npol": rng.choice([1, 2, 4]), "nt": rng.randint(1, 4), "nf": rng.randint(1, 4), "time_major": rng.random() < .5, "autos": rng.random() < .7,
                "lose": rng.choice([0, 0, 1, 2]), "flip": rng.random() < .4, "where": rng.randrange(2), "faults": pick_faults(rng, rng.choice([0, 0, 1]), FAULTS, ["any", "write", "read", "lastwrite", "firstwrite"])}

    def execute(self, case, scratch):
        st, ev = Stats(), []
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        ap = D.grid_antpos(rng, case["nants"], compact=True)
        prs = [q for q in stages.all_pairs(ap) if case["autos"] or q[0] != q[1]]
        rng.shuffle(prs)
        prs = prs[case["lose"]:] or prs
        if case["flip"]:
            prs = [q if rng.random() < .5 else q[::-1] for q in prs]
        pols = {1: ["nn"], 2: ["nn", "ee"], 4: ["nn", "ee", "ne", "en"]}[case["npol"]]
        v = D.Vis(ap, prs, pols, D.times_for(D.JD0, .3, case["nt"]), D.freqs_for(case["nf"]), case["time_major"]).fill(nr, flag_frac=.25)
        twins(v)
        inp = v.write(f"{scratch}/in.uvh5")
        r = finish(st, ev, red_job, lambda k, clob: (inp, f"{scratch}/{k}.uvh5", 1., clob), case["where"], case["faults"], 1)
        if r.status != "ok":
            return result(viol("average-fails", f"redundant average of {prs}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        g = D.read_uvh5(f"{scratch}/real.uvh5")
        m = self.check(v, g)
        return result(viol("average-wrong", f"redundant average of {prs}: {m}") if m else None, ev, True, st, summary={"baselines": len(prs)})

    def check(self, v, g):
        if not (len(g["times"]) == len(v.times) and np.abs(g["times"] - v.times).max() < 1e-8):
            return f"times {g['times'].tolist()}"
        seen = {}
        for pr in g["antpairs"]:
            vec = tuple(np.round((v.antpos[pr[1]] - v.antpos[pr[0]]) / 14.6).astype(int))
            c = max(vec, tuple(-q for q in vec))
            if c in seen:
                return f"baselines {seen[c]} and {pr} are redundant but both kept"
            seen[c] = pr
        want = {}
        for pr in v.antpairs:
            vec = tuple(np.round((v.antpos[pr[1]] - v.antpos[pr[0]]) / 14.6).astype(int))
            want.setdefault(max(vec, tuple(-q for q in vec)), []).append(pr)
        if set(want) != set(seen):
            return f"groups missing {sorted(set(want) - set(seen))[:3]}, extra {sorted(set(seen) - set(want))[:3]}"
        for pr, x in g["int_of"].items():
            if not np.allclose(x, D.INT_S, rtol=1e-6):
                return f"integration times of {pr} are {x.tolist()}, {D.INT_S} in every input baseline"
        for c, kept in seen.items():
            kv = v.antpos[kept[1]] - v.antpos[kept[0]]
            for pol in v.pols:
                num = wsum = ns = 0
                allf = True
                anyint = np.zeros(len(v.times), bool)
                for pr in want[c]:
                    same = np.allclose(v.antpos[pr[1]] - v.antpos[pr[0]], kv, atol=1)
                    d, f, n = (D.get(x, (pr if same else pr[::-1]) + (pol,)) if (pr if same else pr[::-1]) + (pol,) in x or (pr[::-1] if same else pr) + (pol[::-1],) in x else None for x in (v.data, v.flags, v.nsamples))
                    if d is None:
                        return None
                    w = n.astype(float) * ~f
                    num, wsum, ns, allf = num + d.astype(complex) * w, wsum + w, ns + w, allf & ((w == 0))
                    anyint |= (~f).any(1)
                k = kept + (pol,)
                if not np.array_equal(g["flags"][k], allf):
                    return f"flags{k}: {np.argwhere(g['flags'][k] != allf)[:3].tolist()}"
                if not np.allclose(g["nsamples"][k], ns):
                    return f"nsamples{k} differ"
                ok = ~allf
                if not np.allclose(g["data"][k][ok], (num[ok] / wsum[ok]), rtol=2e-5, atol=2e-5):
                    return f"data{k} differ"
        return None

    def shrink(self, case, scratch):
        for k, lo in (("nants", 2), ("nt", 1), ("nf", 1), ("lose", 0)):
            if case[k] > lo:
                yield cp(case, **{k: case[k] - 1})
        if case["faults"]:
            yield cp(case, faults=[])
        if case["flip"]:
            yield cp(case, flip=False)
        if case["npol"] > 1:
            yield cp(case, npol=case["npol"] // 2)


SCENARIOS = {"delay": Filter("delay"), "frf": Filter("frf"), "timeavg": TimeAverage(), "redavg": RedAverage()}
