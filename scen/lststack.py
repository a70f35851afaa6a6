"""Workload, oracle and runner for parallel LST-stack reads (C01, C02)."""
from __future__ import annotations

import os
import random
import sys
import threading
from pathlib import Path

import h5py
import numpy as np

from sim import core, data as D, oracle as O, threads as T
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

SID = 0.99726957
START_WRAP = None


def base_time(wrap):
    """A start fraction of day whose LST lies mid-circle, or just below 2 pi."""
    t0 = D.JD0 + .3
    l0 = float(D.lsts_of((t0,))[0])
    target = 2 * np.pi - 2.5e-3 if wrap else 3.0
    return t0 + ((target - l0) % (2 * np.pi)) / (2 * np.pi) * SID


def gen_case(rng, faulty=False):
    nants = rng.randint(2, 4)
    nfiles = rng.choice([1, 2, 3, 3, 4, 4, 5])
    redavg = rng.random() < .2
    sbs = not redavg and rng.random() < .2
    lstcal = not redavg and rng.random() < .35
    npol = rng.choice([1, 2, 2, 4])
    case = dict(dseed=rng.randrange(1 << 30), nants=nants, npol=npol, nf=rng.randint(2, 4), redavg=redavg, sbs=sbs, lstcal=lstcal,
                wrap=rng.random() < .25 and not sbs, files=[], calls=[])
    if sbs:
        case["nants"] = 2
    cal = rng.random() < .6 and not redavg
    inp = rng.random() < .4
    for i in range(nfiles):
        case["files"].append(dict(night=i if rng.random() < .8 else rng.randrange(6), off=rng.choice([-3, -2, -1, 0, 0, 1, 2, 5, 40]) + round(rng.random() * .8, 3),
                                  nt=rng.choice([1, 2, 3, 4, 5]), drop=rng.choice([0, 0, 0, 1, 2, 99]), flip=rng.random() < .3,
                                  time_major=rng.random() < .5, cal=cal and rng.random() < .85, calmiss=rng.random() < .2, calnt1=rng.random() < .15,
                                  inp=inp and rng.random() < .8, conv=rng.choice(["divide", "divide", "multiply"]), fewpol=rng.random() < .15, calshare=rng.random() < .3))
    if cal and not lstcal and rng.random() < .35:      # a season calibrated from one file, read in parts
        nt = rng.choice([3, 4, 5])
        for f in case["files"]:
            f.update(nt=nt, cal=True, calshare=True, calnt1=False, off=rng.choice([-1, 0, 0, 1]) + round(rng.random() * .8, 3))
    ncalls = rng.choice([1, 1, 2, 2, 3])
    for c in range(ncalls):
        case["calls"].append(dict(nw=rng.choice([1, 2, 2, 3, 4, 6]), nb=rng.randint(1, 5), bw=round(rng.uniform(.8, 3.2), 3), e0=round(rng.uniform(-3.5, 2.5), 3),
                                  rephase=rng.random() < .5, ignore=rng.random() < .1, fmin=rng.random() < .2, fmax=rng.random() < .2,
                                  tidx=rng.random() < .5, paths=rng.choice(["str", "path", "meta"]), bls=rng.randrange(1, 8),
                                  polsel=rng.random() < .2, p=rng.choice([.003, .02, .1, .5]), sseed=rng.randrange(1 << 30),
                                  weights=[rng.choice([1, 1, 1, 5, 20]) for _ in range(16)], instr=rng.random() < .15,
                                  share=rng.random() < .7, order=rng.randrange(1 << 20) if rng.random() < .4 else None))
    return case


class World:
    """Input files of a case plus what they hold."""

    def __init__(self, case, d):
        self.case = case
        self.dir = d
        rng = random.Random(case["dseed"])
        self.antpos = D.grid_antpos(rng, case["nants"], compact=True)
        ants = sorted(self.antpos)
        self.pols = {1: ["nn"], 2: ["nn", "ee"], 4: ["nn", "ee", "ne", "en"]}[case["npol"]]
        if case["sbs"]:
            pairs = [(ants[0], ants[1])]
        else:
            pairs = [(a, b) for a in ants for b in ants if a <= b]
        self.groups = None
        if case["redavg"]:
            g = {}
            for a, b in pairs:
                v = tuple(np.round(self.antpos[b] - self.antpos[a], 3))
                neg = tuple(-x + 0. for x in v)
                if neg in g and v != neg:
                    g[neg].append((b, a))
                else:
                    g.setdefault(v, []).append((a, b))
            self.groups = list(g.values())
            pairs = [grp[0] for grp in self.groups]
        self.pairs = pairs
        self.freqs = D.freqs_for(case["nf"])
        self.bt = base_time(case["wrap"])
        self.files = []
        names = ["zen.%d.%02d" % (D.JD0 + f["night"], i) for i, f in enumerate(case["files"])]
        for i, f in enumerate(case["files"]):
            nr = np.random.default_rng([case["dseed"], i])
            t0 = self.bt + f["night"] * SID + f["off"] * D.DT
            times = t0 + D.DT * np.arange(f["nt"])
            fp = list(pairs)
            if self.groups is not None:
                fp = [grp[int(nr.integers(len(grp)))] for grp in self.groups]
            if f["drop"]:
                keep = max(1, len(fp) - f["drop"])
                fp = [fp[k] for k in sorted(nr.permutation(len(fp))[:keep])]
            if f["flip"]:
                fp = [(b, a) if nr.random() < .5 else (a, b) for a, b in fp]
            fpols = self.pols[:max(1, len(self.pols) // 2)] if f.get("fewpol") and self.groups is None else self.pols
            v = D.Vis(self.antpos, fp, fpols, times, self.freqs, f["time_major"]).fill(nr)
            path = os.path.join(d, names[i] + (".sum.uvh5" if not case["sbs"] else ".%d_%d.uvh5" % fp[0]))
            v.write(path)
            ent = dict(path=path, vis=v, cal=None, inp=None, calpath=None, inppath=None)
            if f["cal"] and not case["lstcal"]:
                cants = [a for a in ants if not (f["calmiss"] and a == ants[0])] or ants
                jpols = sorted({O.jp(c) for p in self.pols for c in p}, reverse=True)
                c = D.Cal(self.antpos, cants, jpols, times[:1] if f["calnt1"] else times, self.freqs, f["conv"]).fill(nr)
                ent["calpath"] = os.path.join(d, names[i] + ".calfits")
                twin = [e for e in self.files if e["cal"] and len(e["vis"].times) == f["nt"]]
                if f.get("calshare") and twin:
                    ent["calpath"], ent["cal"] = twin[-1]["calpath"], twin[-1]["cal"]      # several files, one calibration
                else:
                    c.write(ent["calpath"])
                    ent["cal"] = (c.gains, c.flags, f["conv"])
            if f["cal"] and case["lstcal"]:
                ent["calpath"] = os.path.join(d, names[i] + ".lstcal.h5")
                ent["cal"] = self.lstcal_file(ent["calpath"], nr, times)
            if f["inp"]:
                ent["inppath"] = os.path.join(d, names[i] + ".inp.h5")
                w = {k: nr.random((len(times), len(self.freqs))) < .4 for k in v.keys()}
                D.flag_file(v, ent["inppath"], w)
                ent["inp"] = w
            self.files.append(ent)
        self.ants = ants

    def lstcal_file(self, path, nr, times):
        jpols = ["Jee", "Jnn"]
        pols = ["nn", "ee", "ne", "en"]
        sh = (len(times), len(self.freqs))
        par = {}
        for j in jpols:
            par["A_" + j] = .5 + nr.random(sh)
            par["T_" + j] = nr.normal(size=sh + (2,)) * .1
        if nr.random() < .6:
            par["cross_pol"] = nr.normal(size=sh)
        fl = {p: nr.random(sh) < .2 for p in pols}
        if nr.random() < .3:
            fl["nn"][:] = True
        tpos = {a: np.array([k * 1.0, (k * k) % 3 * 1.0]) for k, a in enumerate(sorted(self.antpos))}
        with h5py.File(path, "w") as f:
            g = f.create_group("data")
            for k, v in par.items():
                g[k] = v
            g["flag_array"] = np.array([fl[p] for p in pols])
            h = f.create_group("Header")
            h["times"], h["freqs"] = times, self.freqs
            an = np.array(sorted(tpos), np.int32)
            h["transformed_antnums"], h["transformed_antpos"] = an, np.array([tpos[a] for a in an])
            h["antnums"], h["antpos"] = an, np.array([self.antpos[a] for a in an])
            h["polarization_array"] = [p.encode() for p in pols]
            h["refpol"] = b"Jee"
        gains, cfl = {}, {}
        for a in sorted(self.antpos):
            for j in jpols:
                gn = par["A_" + j] * np.exp(-1j * (par["T_" + j] @ tpos[a]))
                if j != "Jee" and "cross_pol" in par:
                    gn = gn * np.exp(1j * par["cross_pol"])
                gains[a, j] = gn
                cfl[a, j] = np.full(sh, bool(fl[{"Jee": "ee", "Jnn": "nn"}[j]].all()))
        return gains, cfl, "divide"

    # -- one call
    def call_args(self, c):
        """Everything about one call, as plain data."""
        rng = random.Random(c["bls"] * 7919 + self.case["dseed"])
        nb = len(self.pairs)
        bls = [p for p in self.pairs if rng.random() < .75] or [self.pairs[0]]
        if rng.random() < .3 and self.groups is None:
            bls = [(b, a) if rng.random() < .5 else (a, b) for a, b in bls]
        rng.shuffle(bls)
        order = list(range(len(self.files)))
        if c["order"] is not None:
            random.Random(c["order"]).shuffle(order)
        l0 = float(D.lsts_of((self.bt,))[0])
        dl = 2 * np.pi * D.DT / SID
        edges = l0 + (c["e0"] + c["bw"] * np.arange(c["nb"] + 1)) * dl + 1.7e-9
        pols = list(self.pols)
        if c["polsel"] and len(pols) > 1 and not any(f.get("fewpol") for f in self.case["files"]):
            pols = pols[::-1][:max(1, len(pols) // 2)]
        if self.case["lstcal"]:
            c = dict(c, fmin=False, fmax=False)      # the LST-cal loader has no channel selection
        fmin = self.freqs[1] - 1e3 if c["fmin"] and len(self.freqs) > 1 else None
        fmax = self.freqs[-2] + 1e3 if c["fmax"] and len(self.freqs) > 2 else None
        wraps = int(edges[0] // (2 * np.pi)) != int(edges[-1] // (2 * np.pi))
        return dict(bls=bls, order=order, edges=edges, pols=pols, fmin=fmin, fmax=fmax, tidx=c["tidx"] or wraps)

    def expect(self, c):
        a = self.call_args(c)
        edges = a["edges"].copy()
        while edges[0] >= 2 * np.pi:
            edges -= 2 * np.pi
        while edges[0] < 0:
            edges += 2 * np.pi
        cen = (edges[1:] + edges[:-1]) / 2
        ch = np.ones(len(self.freqs), bool)
        if a["fmin"] is not None:
            ch &= self.freqs >= a["fmin"]
        if a["fmax"] is not None:
            ch &= self.freqs <= a["fmax"]
        fr = self.freqs[ch]
        bins = [[] for _ in cen]
        anyinp = any(self.files[i]["inp"] is not None for i in a["order"])
        for fi in a["order"]:
            e = self.files[fi]
            v = e["vis"]
            lst = v.lsts % (2 * np.pi)
            l = np.where(lst < edges[0], lst + 2 * np.pi, lst)
            rows = {}
            for bi, bl in enumerate(a["bls"]):
                src = bl
                if self.groups is not None:
                    grp = [g for g in self.groups if bl in g or bl[::-1] in g][0]
                    cand = [x for x in grp if x in v.antpairs or x[::-1] in v.antpairs]
                    src = cand[0] if cand else bl
                for pi, p in enumerate(a["pols"]):
                    k = src + (p,)
                    if not D.has(v.data, k):
                        rows[bi, pi] = None
                        continue
                    d, f, n = D.get(v.data, k).astype(complex), D.get(v.flags, k), D.get(v.nsamples, k)
                    valid = True
                    if e["cal"] is not None:
                        g, cf, conv = e["cal"]
                        d, f, valid = O.calibrate(k, d, f, g, cf, convention=conv)
                    w = D.get(e["inp"], k) if e["inp"] is not None else np.zeros_like(f)
                    rows[bi, pi] = (d[:, ch], f[:, ch], n[:, ch], w[:, ch], valid)
            for ti in range(len(v.times)):
                b = int(np.searchsorted(edges, l[ti])) - 1
                if not (0 <= b < len(cen)) or l[ti] > edges[-1]:
                    continue
                sh = (len(a["bls"]), len(fr), len(a["pols"]))
                dd, ff, nn, ww = np.full(sh, np.nan + 1j * np.nan), np.ones(sh, bool), np.zeros(sh), np.zeros(sh, bool)
                vv = np.ones(sh, bool)
                for (bi, pi), r in rows.items():
                    if r is None:
                        continue
                    x = r[0][ti]
                    if c["rephase"]:
                        bl = a["bls"][bi]
                        x = O.rephase(x[None], self.antpos[bl[0]] - self.antpos[bl[1]], fr, np.array([cen[b] - l[ti]]))[0]
                    dd[bi, :, pi], ff[bi, :, pi], nn[bi, :, pi], ww[bi, :, pi] = x, r[1][ti], r[2][ti], r[3][ti]
                    vv[bi, :, pi] = r[4]
                if c["ignore"]:
                    ff[:] = False
                bins[b].append((dd, ff, nn, ww, vv, v.times[ti], lst[ti]))
        return cen, bins, anyinp


def call_real(w, c, shared):
    """The real call, in the job process. ``shared`` holds argument objects reused between calls."""
    from hera_cal.lst_stack import binning
    from hera_cal.lst_stack.calibration import load_single_baseline_lstcal_gains
    from hera_cal.red_groups import RedundantGroups
    from pyuvdata.uvdata import FastUVH5Meta
    a = w.call_args(c)
    ents = [w.files[i] for i in a["order"]]
    conv = {"str": str, "path": Path, "meta": lambda p: FastUVH5Meta(p, blts_are_rectangular=True)}[c["paths"]]
    kw = dict(antpairs=a["bls"], pols=a["pols"], rephase=c["rephase"], ignore_flags=c["ignore"], freq_min=a["fmin"], freq_max=a["fmax"],
              n_workers=c["nw"])
    if c["rephase"]:
        kw["antpos"] = shared.setdefault("antpos", dict(w.antpos))
    if any(e["calpath"] for e in ents):
        kw["cal_files"] = [e["calpath"] for e in ents]
        if w.case["lstcal"]:
            kw["cal_file_loader"] = load_single_baseline_lstcal_gains
            if c["share"]:
                kw["cal_file_loader_kwargs"] = shared.setdefault("ck", {})
    if any(e["inppath"] for e in ents):
        kw["where_inpainted_files"] = [e["inppath"] for e in ents]
    if w.groups is not None:
        kw["redundantly_averaged"] = True
        kw["reds"] = shared.setdefault("reds", RedundantGroups.from_antpos({k: v for k, v in w.antpos.items()}, include_autos=True))
    edges = a["edges"].copy()
    if a["tidx"]:
        e = a["edges"].copy()
        while e[0] >= 2 * np.pi:
            e -= 2 * np.pi
        tix = []
        for x in ents:
            l = x["vis"].lsts % (2 * np.pi)
            l = np.where(l < e[0], l + 2 * np.pi, l)
            tix.append(np.where((l > e[0]) & (l <= e[-1]))[0])
        kw["time_idx"] = tix
    return binning.lst_bin_files_for_baselines([conv(e["path"]) for e in ents], edges, **kw)


def simple(out):
    cen, data, flags, ns, wip, times, lsts = out
    return dict(cen=np.array(cen), data=[np.array(x) for x in data], flags=[np.array(x) for x in flags], ns=[np.array(x) for x in ns],
                wip=None if wip is None else [None if x is None else np.array(x) for x in wip], times=[np.array(t) for t in times],
                lsts=[np.array(t) for t in lsts])


def compare(w, c, got):
    cen, bins, anyinp = w.expect(c)
    if len(got["cen"]) != len(cen) or not np.allclose(got["cen"], cen, atol=1e-9, rtol=0):
        return f"bin centres {got['cen']} expected {cen}"
    for b, rows in enumerate(bins):
        if len(got["data"][b]) != len(rows):
            return f"bin {b}: {len(got['data'][b])} integrations, expected {len(rows)}"
        if not rows:
            continue
        t = np.array([r[5] for r in rows])
        if not np.array_equal(np.round(got["times"][b], 8), np.round(t, 8)):
            return f"bin {b}: times {got['times'][b]} expected {t}"
        if not np.allclose(got["lsts"][b] % (2 * np.pi), np.array([r[6] for r in rows]), atol=1e-9, rtol=0):
            return f"bin {b}: LSTs differ"
        for q, r in enumerate(rows):
            if not np.array_equal(got["flags"][b][q], r[1]):
                return f"bin {b} integration {q} (t={r[5]:.5f}): flags differ at {np.argwhere(got['flags'][b][q] != r[1])[:3].tolist()} (baseline, channel, pol)"
            if not np.allclose(got["ns"][b][q], r[2]):
                return f"bin {b} integration {q} (t={r[5]:.5f}): sample counts differ"
            if anyinp:
                if got["wip"] is None or got["wip"][b] is None:
                    return f"bin {b}: inpainting mask missing"
                if not np.array_equal(got["wip"][b][q], r[3]):
                    return f"bin {b} integration {q} (t={r[5]:.5f}): inpainting mask differs"
            d, e = got["data"][b][q][r[4]], r[0][r[4]]
            if not np.allclose(d, e, rtol=1e-4, atol=1e-4, equal_nan=True):
                bad = np.argwhere(~np.isclose(d, e, rtol=1e-4, atol=1e-4, equal_nan=True))[0]
                return f"bin {b} integration {q} (t={r[5]:.5f}): data differ, got {d[tuple(bad)]} expected {e[tuple(bad)]}"
    return None


def line_modules():
    from hera_cal import apply_cal, datacontainer, io, utils
    from hera_cal.lst_stack import binning, calibration
    return [binning, calibration, io, apply_cal, datacontainer]


class LineFault:
    """Raises MemoryError at the n-th line event of managed threads."""

    def __init__(self, n):
        self.n = n
        self.k = 0
        self.fired = False


def run_calls(w, calls, scheds, memfault=None, retry=False):
    """Job body: performs the calls under simulated threads."""
    from hera_cal.lst_stack import binning
    outs, shared = [], {}
    for c, sw in zip(calls, scheds):
        if sw is not None:
            s = T.Sched(switches={int(k): v for k, v in sw.items()}, hashseed=c["sseed"])
        else:
            s = T.Sched(seed=c["sseed"], p=c["p"], weights=dict(enumerate(c["weights"])), hashseed=c["sseed"])
        r = dict()
        with T.Simulation(s, line_modules(), [binning] if c["instr"] else (), memfault=memfault if not outs else None):
            try:
                r["out"] = simple(call_real(w, c, shared))
            except T.SimDeadlock as e:
                r["dead"] = getattr(s, "why", str(e))
            except BaseException as e:
                import traceback
                r["exc"] = f"{type(e).__name__}: {e}"[:500]
                r["tb"] = traceback.format_exc()[-2500:]
            r["left"] = [t for t, q in s.state.items() if t != 0 and q != "done"]
            r["alive"] = [x.name for x in threading.enumerate() if x is not threading.main_thread() and getattr(x, "_sim", False)]
        r.update(taken={str(k): v for k, v in s.taken.items()}, hash=s.hash.hexdigest()[:16], nswitch=s.nswitch, nthreads=s.next_tid,
                 steps=s.step, memfired=s.memfired, lines=s.lines)
        outs.append(r)
        if "dead" in r or r["left"]:
            break
    return outs
