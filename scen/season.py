"""A season of observing nights, their plan, and the expected LST bins (C13, C14)."""
from __future__ import annotations

import functools
import os
import random

import numpy as np

from sim import data as D, oracle as O

SID = 0.99726957
TWOPI = 2 * np.pi
DL = D.DT / SID * TWOPI          # sidereal advance per integration


@functools.lru_cache(None)
def wrap_day():
    """A day on which LST passes 2 pi near fraction .45."""
    for n in range(0, 366):
        a, b = D.lsts_of((D.JD0 + n + .449, D.JD0 + n + .452))
        if a > b:
            return n
    raise RuntimeError("no such day")


def gen_season(rng, small=False, values=False):
    nn = rng.choice([1, 2, 2, 3])
    case = dict(seed=rng.randrange(1 << 30), nants=rng.randint(2, 3), pols=rng.choice([["nn"], ["nn", "ee"], ["ee", "nn"], ["nn", "ee", "ne", "en"]]), nf=rng.randint(2, 4) if values else 1,
                wrap=rng.random() < .2, time_major=rng.random() < .6, frac=round(rng.uniform(.2, .6), 7), nights=[])
    nt = rng.choice([1, 2, 2, 3, 4])
    for n in range(nn):
        nfiles = rng.randint(1, 3 if values else 5)
        nts = [nt if rng.random() < .8 else rng.randint(1, 4)] * nfiles
        if nfiles > 1 and rng.random() < .3:
            nts[-1] = rng.randint(1, nts[-1])
        case["nights"].append(dict(day=n if rng.random() < .7 else n * 2 + 3, off=round(rng.uniform(-4, 4), 4), nts=nts, gap=rng.choice([0, 0, 0, 0, 1, 5]), drop=rng.random() < .2,
                                   fewpol=not values and rng.random() < .1))
    if len({x["day"] for x in case["nights"]}) < nn:
        for i, x in enumerate(case["nights"]):
            x["day"] = i
    case["regex"] = rng.random() < .5
    case["cal"] = rng.random() < .35
    case["inp"] = rng.random() < .3
    case["redavg"] = not case["cal"] and rng.random() < .25
    case["ignore"] = not case["redavg"] and (case["nants"] > 2 or not values) and rng.random() < .15
    case["lastonly"] = rng.random() < .7
    # grid
    full = case["wrap"] or rng.random() < .25
    case["full"] = full
    bw = rng.uniform(.9, 3.2) if not full else rng.choice([rng.uniform(.9, 3.2), rng.uniform(5, 60)])
    case["ndiv"] = int(TWOPI / (bw * DL))
    case["nlst"] = rng.choice([1, 2, 3, 4, 5, 7]) if not (full and bw > 5) else rng.choice([1, 2, 5, 7, 20, case["ndiv"], case["ndiv"] // 2])
    case["before"] = rng.randint(-2, 4)      # bins before the first integration
    case["nbins"] = rng.randint(2, 12)
    return case


class Season:
    def __init__(self, case, d, write=True):
        self.case, self.dir = case, d
        rng, nr = random.Random(case["seed"]), np.random.default_rng(case["seed"])
        self.antpos = D.grid_antpos(rng, case["nants"], compact=True)
        self.ants = sorted(self.antpos)
        pairs = [(a, b) for i, a in enumerate(self.ants) for b in self.ants[i:]]
        self.groups = None
        if case.get("redavg"):
            g = {}
            for a, b in pairs:
                v = tuple(np.round(self.antpos[b] - self.antpos[a], 2) + 0.)
                neg = tuple(-x + 0. for x in v)
                if neg in g and v != neg:
                    g[neg].append((b, a))
                else:
                    g.setdefault(v, []).append((a, b))
            self.groups = list(g.values())
        self.freqs = D.freqs_for(case["nf"])
        day0, frac = (wrap_day(), .4505 - 2 * D.DT) if case["wrap"] else (0, case["frac"])
        self.files, self.nights = [], []
        for n, x in enumerate(case["nights"]):
            t = D.JD0 + day0 + frac + x["day"] * SID + x["off"] * D.DT
            if case["wrap"]:
                t += 0.0
            os.makedirs(f"{d}/n{n}", exist_ok=True)
            mine = []
            fp = list(pairs)
            if self.groups:
                fp = [rng.choice(g) for g in self.groups]
                fp = [p[::-1] if rng.random() < .2 else p for p in fp]
            if x["drop"] and len(fp) > 3:
                fp = fp[:-1]
            pols = case["pols"][:1] if x["fewpol"] and n else case["pols"]
            for k, nt in enumerate(x["nts"]):
                times = t + D.DT * np.arange(nt)
                t += D.DT * (nt + (x["gap"] if k % 2 else 0))
                v = D.Vis(self.antpos, fp, pols, times, self.freqs, case["time_major"]).fill(nr, nsamp=(1, 2, 3), full_flag=.06)
                if case["inp"]:
                    for q in v.nsamples.values():
                        q[:] = q[:, :1]
                stem = f"{d}/n{n}/zen.{times[0] + D.DT / 2:.5f}"
                ent = dict(path=stem + ".sum.uvh5", vis=v, night=n, cal=None, inp=None, calpath=None, inppath=None)
                if write:
                    v.write(ent["path"])
                if case["cal"]:
                    c = D.Cal(self.antpos, self.ants, sorted({O.jp(q) for p in case["pols"] for q in p}, reverse=True), times, self.freqs).fill(nr, full_flag=.05)
                    ent["calpath"] = stem + ".calfits"
                    ent["cal"] = c
                    if write:
                        c.write(ent["calpath"])
                if case["inp"]:
                    ent["inppath"] = stem + ".inp.h5"
                    ent["inp"] = {q: nr.random((nt, len(self.freqs))) < .5 for q in v.keys()}
                    if write:
                        D.flag_file(v, ent["inppath"], ent["inp"])
                mine.append(ent)
                self.files.append(ent)
            self.nights.append(mine)
        self.pairs = pairs
        dl = TWOPI / case["ndiv"]
        first = min(float(e["vis"].lsts[0]) for e in self.files)
        if case["full"]:
            start, end = 0.0, TWOPI
        else:
            start = max(0.0, first - case["before"] * dl)
            end = min(TWOPI, start + max(2, case["nbins"]) * dl)
        self.kw = dict(dlst=dl, nlsts_per_file=case["nlst"], lst_start=start, lst_end=end, antpairs_from_last_file_each_night=case["lastonly"])
        if not case["regex"]:
            self.kw["jd_regex"] = rng.choice([None, ""])
        if case["cal"]:
            self.kw["calfile_rules"] = [(r"\.sum\.uvh5", ".calfits")]
        if case["inp"]:
            self.kw["where_inpainted_file_rules"] = [(r"\.sum\.uvh5", ".inp.h5")]
        if case["ignore"]:
            self.kw["ignore_ants"] = (self.ants[-1],)

    def listing(self, seed):
        """The nights' file lists, in natural or in a shuffled order."""
        ls = [[e["path"] for e in n] for n in self.nights]
        if seed:
            r = random.Random(seed)
            for x in ls:
                r.shuffle(x)
            r.shuffle(ls)
        return ls


# ------------------------------------------------------------------ jobs
def plain(c):
    import attrs
    cfg = {k: v for k, v in attrs.asdict(c.config).items()}
    cfg["data_files"] = [[str(f) for f in n] for n in cfg["data_files"]]
    for k in ("calfile_rules", "where_inpainted_file_rules"):
        cfg[k] = [list(map(str, r)) for r in cfg[k]] if cfg[k] else None
    cfg["ignore_ants"] = [int(a) for a in cfg["ignore_ants"]]
    cfg = {k: (v.item() if isinstance(v, np.generic) else v) for k, v in cfg.items()}
    nest = lambda x: None if x is None else [[[str(f) for f in n] for n in o] for o in x]
    return dict(lst_grid=np.asarray(c.lst_grid), dlst=float(c.dlst), matched=nest(c.matched_files), cals=nest(c.calfiles), inps=nest(c.inpaint_files), antpairs=[tuple(a) for a in c.antpairs],
                autopairs=[tuple(a) for a in c.autopairs], pols=[str(p) for p in c.pols], properties={k: (v.item() if isinstance(v, np.generic) else v) for k, v in c.properties.items()}, config=cfg)


def plan_job(listing, kw, out):
    from hera_cal.lst_stack import config
    kw = dict(kw)
    kw = {k: ([tuple(r) for r in v] if k.endswith("_rules") else tuple(v) if k == "ignore_ants" else v) for k, v in kw.items()}
    c = config.LSTBinConfigurator(data_files=listing, **kw)
    p = c.create_config(c.get_matched_files())
    p.write(out)
    return plain(p)


def single(s):
    return dict(grid=np.asarray(s.lst_grid), edges=np.asarray(s.lst_grid_edges), files=[str(f) for f in s.matched_files], tinds=[[int(i) for i in t] for t in s.time_indices],
                cals=None if s.calfiles is None else [str(f) for f in s.calfiles], inps=None if s.inpaint_files is None else [str(f) for f in s.inpaint_files],
                lsts=[np.asarray(x) for x in s.get_lsts()])


def read_plan_job(path, bins):
    from hera_cal.lst_stack import config
    p = config.LSTConfig.from_file(path)
    out = dict(plan=plain(p), outs=[single(p.at_single_outfile(i)) for i in range(len(p.lst_grid))], bins=[])
    if bins:
        for i in range(p.lst_grid.size):
            if np.isfinite(p.lst_grid.flat[i]):
                out["bins"].append((i, single(p.at_single_bin(i))))
        for i in range(len(p.lst_grid)):
            g = p.lst_grid[i]
            out.setdefault("bylst", []).append(single(p.at_single_outfile(lst=float(g[0])))["files"])
    return out
