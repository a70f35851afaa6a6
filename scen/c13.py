"""C13: LST-binned files hold the right average of every matching integration."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core, data as D, oracle as O, peer
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

from .c08 import FAULTS
from .season import TWOPI, Season, gen_season, plan_job

EPS = 3e-9


def bin_job(plan, outdir, sel, kw):
    from hera_cal.lst_stack import wrappers
    kw = dict(kw)
    return [None if o is None else {f"{k[0]}-{k[1]}": str(v) for k, v in o.items()}
            for o in wrappers.lst_bin_files(plan, output_file_select=sel, outdir=outdir, fname_format="zen.{kind}.{lst:7.5f}.{inpaint_mode}.uvh5", **kw)]


def mean_of(w, case, key, rows, ch, mode, cen):
    """Reference statistics of one baseline-pol of one bin: dict of arrays over channels."""
    nf = int(ch.sum())
    d, f, n, q = [], [], [], []
    for e, t in rows:
        v = e["vis"]
        src = key
        if w.groups is not None:
            g = [g for g in w.groups if key[:2] in g or key[:2][::-1] in g][0]
            sgn = key[:2] in g
            cand = [p for p in v.antpairs if p in g or p[::-1] in g]
            if not cand:
                d.append(np.full(nf, np.nan + 0j)), f.append(np.ones(nf, bool)), n.append(np.zeros(nf)), q.append(np.zeros(nf, bool))
                continue
            src = cand[0] if (cand[0] in g) == sgn else cand[0][::-1]
            src = src + (key[2],)
        if not D.has(v.data, src):
            d.append(np.full(nf, np.nan + 0j)), f.append(np.ones(nf, bool)), n.append(np.zeros(nf)), q.append(np.zeros(nf, bool))
            continue
        dd, ff, nn = D.get(v.data, src).astype(complex), D.get(v.flags, src), D.get(v.nsamples, src).astype(float)
        if e["cal"] is not None:
            dd, ff, _ = O.calibrate(src, dd, ff, e["cal"].gains, e["cal"].flags)
        if case["rephase"]:
            l = float(v.lsts[t]) % TWOPI
            dl = (cen - l + np.pi) % TWOPI - np.pi
            dd = O.rephase(dd[t][None], w.antpos[key[0]] - w.antpos[key[1]], w.freqs, np.array([dl]))[0]
        else:
            dd = dd[t]
        ip = D.get(e["inp"], src)[t] if e["inp"] is not None else np.zeros(len(w.freqs), bool)
        d.append(dd[ch]), f.append(ff[t][ch]), n.append(nn[t][ch]), q.append(ip[ch])
    out = dict(flags=np.ones(nf, bool), data=np.full(nf, np.nan + 0j), ns=np.zeros(nf), std=np.full(nf, np.nan + 0j), days=np.zeros(nf), med=np.full(nf, np.nan + 0j), mad=np.full(nf, np.nan + 0j),
               hasmean=np.zeros(nf, bool))
    if not d:
        return out
    d, f, n, q = (np.array(x) for x in (d, f, n, q))
    bad = ~np.isfinite(d)
    orig = f | q | bad                       # flagged, whether inpainted or not
    unusable = np.where(q, False, f) | bad
    use = ~unusable if mode else ~orig
    if mode:
        cnt = (~orig).sum(axis=1)
        wt = np.array([n[i][~orig[i]].mean() if cnt[i] else 0. for i in range(len(n))])[:, None] * np.ones(n.shape)
    else:
        wt = n
    for c in range(nf):
        u = use[:, c]
        out["flags"][c] = not u.any()
        out["days"][c] = (~orig[:, c]).sum()
        out["ns"][c] = wt[~orig[:, c], c].sum()
        if u.any() and wt[u, c].sum() > 0:
            out["hasmean"][c] = True
            m = out["data"][c] = (wt[u, c] * d[u, c]).sum() / wt[u, c].sum()
            o = ~orig[:, c]
            if o.any() and out["ns"][c] > 0:
                out["std"][c] = np.sqrt((wt[o, c] * (d[o, c].real - m.real)**2).sum() / out["ns"][c]) + 1j * np.sqrt((wt[o, c] * (d[o, c].imag - m.imag)**2).sum() / out["ns"][c])
        if u.any():
            m = out["med"][c] = np.median(d[u, c])
            out["mad"][c] = 1.482579 * (np.median(np.abs(d[u, c].real - m.real)) + 1j * np.median(np.abs(d[u, c].imag - m.imag)))
    return out


class Bins(Scenario):
    def gen(self, rng):
        c = gen_season(rng, values=True)
        c["nlst"] = min(c["nlst"], rng.choice([2, 3, 5, 7]))
        c["rephase"] = rng.random() < .5
        c["fmin"], c["fmax"] = rng.random() < .15, rng.random() < .15
        c["medmad"] = rng.random() < .35
        c["modes"] = rng.choice([None, None, "flagged", "inpainted", "both"]) if c["inp"] else None
        c["jobs"] = [[rng.randrange(1 << 20), rng.randrange(2), rng.choice([None, 1, 1, 2, 3, 50]), pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "lastwrite"]),
                      rng.randrange(1 << 20) if rng.random() < .3 else 0] for _ in range(rng.choice([1, 2, 2, 3]))]
        c["again"] = rng.random() < .3
        return c

    def execute(self, case, scratch):
        st, ev = Stats(), []
        w = Season(case, scratch)
        desc = f"{len(w.files)} files of {[x['nts'] for x in case['nights']]} integrations, {case['nlst']} bins per file"
        plan0 = peer.run_job(0, plan_job, w.listing(0), w.kw, scratch + "/plan.h5")
        st.job(plan0)
        if plan0.status != "ok":
            ev.append((plan0.status, plan0.exc_type))
            st.add("probe:no_plan")
            return result(None, ev, False, st)
        A = plan0.value
        nout = len(A["lst_grid"])
        ev.append((A["lst_grid"].shape, desc))
        # which job computes which output file
        r = random.Random(case["seed"] ^ 77)
        outs = list(range(nout))
        r.shuffle(outs)
        outs = outs[:4]
        share = {}
        for o in outs:
            share.setdefault(r.randrange(len(case["jobs"])), []).append(o)
        base = dict(rephase=case["rephase"], write_med_mad=case["medmad"])
        ch = np.ones(len(w.freqs), bool)
        if case["fmin"] and len(w.freqs) > 1:
            base["freq_min"] = float(w.freqs[1] - 1e3)
            ch &= w.freqs >= base["freq_min"]
        if case["fmax"] and len(w.freqs) > 2:
            base["freq_max"] = float(w.freqs[-2] + 1e3)
            ch &= w.freqs <= base["freq_max"]
        if case["modes"] == "flagged":
            base.update(output_inpainted=False)
        elif case["modes"] == "inpainted":
            base.update(output_inpainted=True, output_flagged=False)
        elif case["modes"] == "both":
            base.update(output_inpainted=True)
        modes = {None: [True, False] if case["inp"] else [False], "flagged": [False], "inpainted": [True], "both": [True, False]}[case["modes"]]
        files = {}
        todo = [(j, x) for j, x in enumerate(case["jobs"]) if j in share]
        if case["again"] and todo:
            todo.append(todo[0])
        for j, (oseed, where, chunk, faults, reorder) in todo:
            plan = scratch + "/plan.h5"
            if reorder:
                plan = scratch + f"/plan{j}.h5"
                rp = peer.run_job(where, plan_job, w.listing(reorder), w.kw, plan)
                if rp.status != "ok" or rp.value["lst_grid"].shape != A["lst_grid"].shape:
                    plan, rp = scratch + "/plan.h5", plan0
            else:
                rp = plan0
            kw = dict(base, bl_chunk_size=chunk)
            sel = list(share[j])
            rp0 = None
            if faults:
                rp0 = peer.run_job(0, bin_job, plan, scratch + f"/probe{j}", sel, dict(kw, overwrite=True))
                st.job(rp0)
                for f in (faults if rp0.status == "ok" else []):
                    pl = resolve([f], rp0.ops())
                    r1 = peer.run_job(where, bin_job, plan, scratch + "/out", sel, dict(kw, overwrite=True), plan=pl)
                    st.job(r1)
                    st.fired(pl, r1)
                    ev.append(("attempt", r1.status, r1.exc_type))
            r2 = peer.run_job(where, bin_job, plan, scratch + "/out", sel, dict(kw, overwrite=True))
            st.job(r2)
            ev.append((j, where, r2.status, r2.exc_type))
            if r2.status != "ok":
                return result(viol("bin-fails", f"{desc}, output files {sel} of {nout}: {r2.brief()}\n{r2.tb[-1500:]}"), ev, True, st)
            for o, got in zip(sel, r2.value):
                files[o] = (got, rp.value)
        names = [f for g, _ in files.values() if g for f in g.values()]
        if len(set(names)) != len(names):
            return result(viol("bin-names", f"{desc}: several output files share the name {[os.path.basename(n) for n in names if names.count(n) > 1][0]}"), ev, True, st)
        v, filled = None, 0
        for o in sorted(files):
            v, k = self.check(w, case, files[o][1], o, files[o][0], ch, modes)
            filled += k
            if v:
                v = viol("bin-" + v[0], f"{desc}, output file {o} of {nout}{', rephased' if case['rephase'] else ''}: {v[1]}")
                break
        st.add("probe:bins_filled", filled)
        return result(v, ev, filled > 0, st, summary={"outfiles": len(files), "jobs": len(todo), "modes": modes})

    def check(self, w, case, A, o, got, ch, modes):
        grid = A["lst_grid"][o]
        grid = grid[np.isfinite(grid)]
        dl = A["dlst"]
        rows, edgy = [[] for _ in grid], [False] * len(grid)
        for e in w.files:
            for t, l in enumerate(e["vis"].lsts):
                x = ((float(l) - (grid[0] - dl / 2) + EPS) % TWOPI - EPS) / dl
                for b in range(len(grid)):
                    if min(abs(x - b), abs(x - b - 1), abs(x - b - TWOPI / dl), abs(x - b - 1 - TWOPI / dl)) * dl < EPS:
                        edgy[b] = True
                if 0 <= x < len(grid):
                    rows[int(x)].append((e, t))
        if not any(rows):
            if got is not None and not any(edgy):
                for k, p in got.items():
                    g = D.read_uvh5(p)
                    if not all(f.all() for f in g["flags"].values()):
                        return ("invented", f"{k} has unflagged data though no integration falls in its bins"), 0
            return None, 0
        if got is None:
            return (None if all(edgy[b] for b in range(len(grid)) if rows[b]) else ("missing", f"nothing was written though {sum(map(len, rows))} integrations fall in its bins")), 0
        kinds = ["LST", "STD"] + (["MED", "MAD"] if case["medmad"] else [])
        if sorted(got) != sorted(f"{k}-{m}" for k in kinds for m in modes):
            return ("products", f"products {sorted(got)}"), 0
        pairs = [tuple(p) for p in A["antpairs"] + A["autopairs"]]
        pols = A["pols"]
        for mode in modes:
            G = {}
            for k in kinds:
                try:
                    G[k] = D.read_uvh5(got[f"{k}-{mode}"])
                except Exception as ex:
                    return ("unreadable", f"{k}: {type(ex).__name__}: {ex}"), 0
                g = G[k]
                if sorted(g["antpairs"]) != sorted(pairs) or sorted(g["pols"]) != sorted(pols):
                    return ("baselines", f"{k} holds {sorted(g['antpairs'])} {g['pols']}, the plan {sorted(pairs)} {pols}"), 0
                if len(g["freqs"]) != ch.sum() or not np.allclose(g["freqs"], w.freqs[ch], rtol=0, atol=1):
                    return ("freqs", f"{k}: frequencies {g['freqs'].tolist()}"), 0
            for ap in pairs:
                lst = np.asarray(G["LST"]["lsts_of"][ap]) % TWOPI
                order = [int(np.argmin(np.abs((lst - c + np.pi) % TWOPI - np.pi))) for c in grid]
                if len(lst) != len(grid) or sorted(order) != list(range(len(grid))) or np.abs((lst[order] - grid + np.pi) % TWOPI - np.pi).max() > 2e-6:
                    return ("lsts", f"baseline {ap} holds LSTs {lst.tolist()}, the bins are at {grid.tolist()}"), 0
                for p in pols:
                    key = ap + (p,)
                    for b in range(len(grid)):
                        if edgy[b]:
                            continue
                        x = mean_of(w, case, key, rows[b], ch, mode, grid[b])
                        i = order[b]
                        at = f"{'inpainted' if mode else 'flagged'} mode, {key}, bin {b} of {len(grid)} with {len(rows[b])} integrations"
                        m = self.one(G, key, i, x, at, case["medmad"])
                        if m:
                            return m, 0
        return None, sum(bool(q) and not z for q, z in zip(rows, edgy))

    def one(self, G, key, i, x, at, medmad):
        g = G["LST"]
        for k in G:
            if not np.array_equal(G[k]["flags"][key][i], x["flags"]):
                return "flags", f"{at}: {k} flags {G[k]['flags'][key][i].astype(int).tolist()} expected {x['flags'].astype(int).tolist()}"
        tol = dict(rtol=2e-5, atol=2e-5)
        for k, want in (("LST", x["ns"]), ("STD", x["days"]), ("MED", x["ns"]), ("MAD", x["days"])):
            if k in G and not np.allclose(G[k]["nsamples"][key][i], want, **tol):
                return "nsamples", f"{at}: {k} sample counts {G[k]['nsamples'][key][i].tolist()} expected {want.tolist()}"
        ok = x["hasmean"]
        if not np.allclose(g["data"][key][i][ok], x["data"][ok], **tol):
            return "mean", f"{at}: mean {g['data'][key][i][ok].tolist()} expected {x['data'][ok].tolist()}"
        ok = np.isfinite(x["std"])
        if not np.allclose(G["STD"]["data"][key][i][ok], x["std"][ok], rtol=1e-4, atol=1e-4):
            return "std", f"{at}: standard deviation {G['STD']['data'][key][i][ok].tolist()} expected {x['std'][ok].tolist()}"
        if medmad:
            ok = ~x["flags"]
            for k, n in (("MED", "med"), ("MAD", "mad")):
                if not np.allclose(G[k]["data"][key][i][ok], x[n][ok], rtol=1e-4, atol=1e-4):
                    return n, f"{at}: {n} {G[k]['data'][key][i][ok].tolist()} expected {x[n][ok].tolist()}"
        return None

    def shrink(self, case, scratch):
        js = case["jobs"]
        for i in range(len(js)):
            if len(js) > 1:
                yield cp(case, jobs=js[:i] + js[i + 1:])
            for q, v in ((1, 0), (2, None), (3, []), (4, 0)):
                if js[i][q] != v:
                    yield cp(case, jobs=js[:i] + [js[i][:q] + [v] + js[i][q + 1:]] + js[i + 1:])
        for k, v in (("again", False), ("cal", False), ("inp", False), ("ignore", False), ("rephase", False), ("fmin", False), ("fmax", False), ("medmad", False), ("pols", ["nn"]), ("nants", 2), ("nf", 2)):
            if case[k] != v:
                yield cp(case, **{k: v})
        for i in range(len(case["nights"])):
            if len(case["nights"]) > 1:
                yield cp(case, nights=case["nights"][:i] + case["nights"][i + 1:])
            x = case["nights"][i]
            if len(x["nts"]) > 1:
                yield cp(case, nights=case["nights"][:i] + [dict(x, nts=x["nts"][:-1])] + case["nights"][i + 1:])
            for k, v in (("gap", 0), ("drop", False), ("fewpol", False)):
                if x[k] != v:
                    yield cp(case, nights=case["nights"][:i] + [dict(x, **{k: v})] + case["nights"][i + 1:])


SCENARIOS = {"bins": Bins()}
