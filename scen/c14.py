"""C14: an LST-binning plan read by any job is the plan that was written, and it lists every integration once."""
from __future__ import annotations

import os

import numpy as np

from sim import core, data as D, peer
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

from .c08 import FAULTS
from .season import DL, TWOPI, Season, gen_season, plan_job, read_plan_job

EPS = 2e-9


def same(a, b, path="plan"):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return None if a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") else f"{path}: {a.tolist()} became {b.tolist()}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k} only in {'the plan written' if k in a else 'the plan read'}"
            m = same(a[k], b[k], f"{path}.{k}")
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {a} became {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            m = same(x, y, f"{path}[{i}]")
            if m:
                return m
        return None
    return None if a == b else f"{path}: {a!r} became {b!r}"


def norm_plan(p):
    """What of a plan must not depend on listing order."""
    q = {k: p[k] for k in ("lst_grid", "dlst", "pols")}
    q["antpairs"] = sorted(tuple(sorted(b)) for b in p["antpairs"] + p["autopairs"])     # either orientation
    q["properties"] = {k: v for k, v in p["properties"].items() if k in ("first_jd", "lst_branch_cut")}
    for k in ("matched", "cals", "inps"):
        q[k] = None if p[k] is None else [sorted(f for n in o for f in n) for o in p[k]]
    return q


def wanted(w, dl):
    """Which integrations lie in the requested grid, built independently: (inside, too close to an edge to say)."""
    lo = w.kw["lst_start"]
    first = np.floor(lo / dl + 1e-9) * dl
    n = int(np.ceil((w.kw["lst_end"] - lo) / dl - .5 - 1e-6))     # bins whose centre lies in the window
    want = {}
    for e in w.files:
        for t, l in enumerate(e["vis"].lsts):
            x = (float(l) - first) % TWOPI
            edge = min((x / dl) % 1, 1 - (x / dl) % 1) * dl
            want[e["path"], t] = (x < n * dl - EPS, edge < EPS or abs(x - n * dl) < dl * 1.01 or x > TWOPI - EPS)
    return want, first, n


def coverage(w, plan, outs):
    """Every integration within the grid is under exactly one output file."""
    grid = plan["lst_grid"].ravel()
    grid = grid[np.isfinite(grid)]
    dl = plan["dlst"]
    if len(grid) and not np.allclose(np.diff(grid) / dl, np.round(np.diff(grid) / dl), atol=1e-5):
        return "grid-uneven", f"the bin centres {grid.tolist()} do not lie on a grid of spacing {dl}"
    want, first, n = wanted(w, dl)
    seen = {}
    for o, s in enumerate(outs):
        for f, ti in zip(s["files"], s["tinds"]):
            for t in ti:
                seen.setdefault((f, t), []).append(o)
    for k, (inside, edge) in sorted(want.items()):
        got = seen.get(k, [])
        if len(got) > 1:
            return "listed-twice", f"integration {k[1]} of {os.path.basename(k[0])} is listed under output files {got}"
        if inside and not edge and not got:
            l = float([e for e in w.files if e["path"] == k[0]][0]["vis"].lsts[k[1]])
            return "lost", f"integration {k[1]} of {os.path.basename(k[0])} at LST {l:.6f} lies in the grid [{first:.6f}, {first + n * dl:.6f}) but is under no output file"
        if not inside and not edge and got:
            return "outside", f"integration {k[1]} of {os.path.basename(k[0])} lies outside the grid but is listed under output file {got[0]}"
    alien = sorted(set(seen) - set(want))
    if alien:
        return "unknown", f"the plan lists {alien[:2]}"
    # each is under the output file whose bins hold it
    for o, s in enumerate(outs):
        for f, ti, ls in zip(s["files"], s["tinds"], s["lsts"]):
            e = [e for e in w.files if e["path"] == f][0]
            for t, l in zip(ti, ls):
                true = float(e["vis"].lsts[t]) % TWOPI
                if abs(((l - true + np.pi) % TWOPI) - np.pi) > 1e-8:
                    return "lst", f"integration {t} of {os.path.basename(f)} is given LST {l}, the file holds {true}"
                if not (-EPS <= (true - s["edges"][0] + 1e-6) % TWOPI - 1e-6 <= s["edges"][-1] - s["edges"][0] + EPS):
                    return "wrong-file", f"integration {t} of {os.path.basename(f)} at LST {true:.6f} is under an output file of edges {s['edges'].tolist()}"
    return None


class Plan(Scenario):
    def gen(self, rng):
        c = gen_season(rng)
        c["where"] = [rng.randrange(2), rng.randrange(2), rng.randrange(2)]
        c["order"] = rng.randrange(1, 1 << 20)
        c["faults"] = pick_faults(rng, rng.choice([0, 0, 0, 1]), FAULTS, ["any", "write", "lastwrite"])
        c["bins"] = rng.random() < .3
        return c

    def execute(self, case, scratch):
        st, ev = Stats(), []
        w = Season(case, scratch)
        desc = f"{len(w.files)} files of {[x['nts'] for x in case['nights']]} integrations, {case['nlst']} bins per file"
        r = peer.run_job(case["where"][0], plan_job, w.listing(0), w.kw, scratch + "/plan.h5")
        st.job(r)
        if r.status != "ok":
            ev.append((r.status, r.exc_type, r.exc))
            if self.nothing(w, r):
                st.add("probe:no_overlap")
                return result(None, ev, False, st)
            return result(viol("plan-fails", f"{desc}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        A = r.value
        if case["faults"]:
            plan = resolve(case["faults"], r.ops())
            r1 = peer.run_job(case["where"][0], plan_job, w.listing(0), w.kw, scratch + "/plan.h5", plan=plan)
            st.job(r1)
            st.fired(plan, r1)
            r = peer.run_job(case["where"][0], plan_job, w.listing(0), w.kw, scratch + "/plan.h5")
            st.job(r)
            ev.append((r1.status, r1.exc_type, r.status))
            if r.status != "ok":
                return result(viol("plan-rerun-fails", f"{desc}: {r.brief()}\n{r.tb[-1500:]}"), ev, True, st)
        r2 = peer.run_job(case["where"][1], read_plan_job, scratch + "/plan.h5", case["bins"])
        st.job(r2)
        ev.append((A["matched"], r2.status))
        if r2.status != "ok":
            return result(viol("plan-read-fails", f"{desc}: {r2.brief()}\n{r2.tb[-1500:]}"), ev, True, st)
        B = r2.value
        m = same(A, B["plan"])
        if m:
            return result(viol("plan-changed", f"{desc}: {m}"), ev, True, st)
        if case["order"]:
            r3 = peer.run_job(case["where"][2], plan_job, w.listing(case["order"]), w.kw, scratch + "/plan2.h5")
            st.job(r3)
            if r3.status != "ok":
                return result(viol("plan-order-fails", f"{desc}, nights and files listed in another order: {r3.brief()}\n{r3.tb[-1500:]}"), ev, True, st)
            m = same(norm_plan(A), norm_plan(r3.value))
            if m:
                return result(viol("plan-order", f"{desc}: listed in another order, {m}"), ev, True, st)
        c = coverage(w, A, B["outs"])
        if c:
            return result(viol("plan-" + c[0], f"{desc}, jd from {'file names' if case['regex'] else 'metadata'}: {c[1]}"), ev, True, st)
        m = self.products(w, case, A, B)
        return result(viol("plan-" + m[0], f"{desc}: {m[1]}") if m else None, ev, True, st, summary={"outfiles": len(A["lst_grid"])})

    def nothing(self, w, r):
        """No integration lies in the grid: planning may refuse."""
        if w.kw["lst_end"] - w.kw["lst_start"] <= w.kw["dlst"] * 1.001:
            return True
        return not any(inside and not edge for inside, edge in wanted(w, w.kw["dlst"])[0].values())

    def products(self, w, case, A, B):
        ign = set(w.kw.get("ignore_ants", ()))
        have = set()
        for n in w.nights:
            for e in (n if not case["lastonly"] else (n[0], n[-1])):
                have |= {tuple(sorted(p)) for p in e["vis"].antpairs if not ign & set(p)}
        got = sorted(tuple(sorted(p)) for p in A["antpairs"] + A["autopairs"])
        if w_red(w):
            idx = [[i for i, g in enumerate(w.groups) if tuple(p) in g or tuple(p)[::-1] in g] for p in A["antpairs"] + A["autopairs"]]
            ex = sorted({i for n in w.nights for p in n[0]["vis"].antpairs for i, g in enumerate(w.groups) if p in g or p[::-1] in g})
            if sorted(idx) != [[i] for i in ex]:
                return "baselines", f"baselines {got}, the files hold one of each of {[w.groups[i] for i in ex]}"
        elif sorted(have) != got:
            return "baselines", f"baselines {got}, the files hold {sorted(have)}"
        if sorted({p for e in w.files for p in e["vis"].pols}) != sorted(A["pols"]):
            return "pols", f"polarizations {A['pols']}"
        if abs(A["properties"]["first_jd"] - min(e["vis"].times[0] for e in w.files)) > 1e-9:
            return "first-jd", f"first JD {A['properties']['first_jd']}, the earliest integration is at {min(e['vis'].times[0] for e in w.files)}"
        by = {e["path"]: e for e in w.files}
        for s in B["outs"] + [b for _, b in B["bins"]]:
            for i, f in enumerate(s["files"]):
                for key, name in (("cals", "calpath"), ("inps", "inppath")):
                    if (s[key] is not None) != bool(by[f][name]):
                        return key, f"{key} {s[key]} for {f}"
                    if s[key] is not None and s[key][i] != by[f][name]:
                        return key, f"{os.path.basename(f)} is paired with {s[key][i]}"
        n = case["nlst"]
        agg = {}
        for i, b in B["bins"]:
            for f, t in zip(b["files"], b["tinds"]):
                for x in t:
                    agg.setdefault((i // n, f, x), []).append(i)
        if B["bins"]:
            for o, s in enumerate(B["outs"]):
                for f, ti in zip(s["files"], s["tinds"]):
                    for t in ti:
                        l = float(by[f]["vis"].lsts[t])
                        x = (l - s["edges"][0]) / A["dlst"]
                        if abs(x - round(x)) * A["dlst"] < EPS:
                            continue
                        if len(agg.pop((o, f, t), [])) != 1:
                            return "bins", f"integration {t} of {os.path.basename(f)} under output file {o} is not in exactly one of its bins"
            for o, fl in enumerate(B["bylst"]):
                if np.isfinite(A["lst_grid"][o][0]) and fl != B["outs"][o]["files"]:
                    return "bylst", f"output file {o} looked up by the LST of its first bin gives files {fl}"
        return None

    def shrink(self, case, scratch):
        for k, v in (("faults", []), ("order", 0), ("cal", False), ("inp", False), ("ignore", False), ("bins", False), ("where", [0, 0, 0]), ("pols", ["nn"]), ("nants", 2)):
            if case[k] != v:
                yield cp(case, **{k: v})
        for i in range(len(case["nights"])):
            if len(case["nights"]) > 1:
                yield cp(case, nights=case["nights"][:i] + case["nights"][i + 1:])
            x = case["nights"][i]
            if len(x["nts"]) > 1:
                yield cp(case, nights=case["nights"][:i] + [dict(x, nts=x["nts"][:-1])] + case["nights"][i + 1:])
            for k, v in (("gap", 0), ("drop", False), ("fewpol", False)):
                if x[k] != v:
                    yield cp(case, nights=case["nights"][:i] + [dict(x, **{k: v})] + case["nights"][i + 1:])


def w_red(w):
    """Redundantly averaged files: baselines are named by their group, in any of its names."""
    return w.groups is not None


SCENARIOS = {"plan": Plan()}
