"""C07: writing in pieces gives the file that one whole update would give."""
from __future__ import annotations

import os
import random

import numpy as np

from sim import core
from sim import data as D
from sim.base import Scenario, Stats, cp, pick_faults, resolve, result, viol

from .c06 import build

WHAT = ("data", "flags", "nsamples")


def conj_key(k):
    return (k[1], k[0], k[2][::-1])


def twin(k):
    """The other name of a cross-hand autocorrelation."""
    return conj_key(k) if k[0] == k[1] and k[2][0] != k[2][1] else None


class State:
    """Model of one reader/writer object: what is loaded and what each output must hold."""

    def __init__(self, v):
        self.v = v
        self.nt, self.nf = len(v.times), len(v.freqs)
        self.cur = None
        self.outs = {}

    def load(self, pairs, pols, ti, fi):
        self.sel = (list(pairs), list(pols), list(ti), list(fi))
        self.cur = {w: {tuple(q) + (p,): getattr(self.v, w)[tuple(q) + (p,)][np.ix_(ti, fi)].copy() for q in pairs for p in pols} for w in WHAT}

    def apply(self, ups, ts=slice(None), fs=slice(None), base=None):
        cur = base or self.cur
        for w in WHAT:
            for k, x in ups.get(w, {}).items():
                y = x
                if k not in cur[w]:
                    k, y = conj_key(k), np.conj(x)
                cur[w][k][ts, fs] = y
                t = twin(k)
                if t is not None and t in cur[w] and t not in ups[w]:
                    cur[w][t][ts, fs] = np.conj(y)
        return cur

    def write(self, o, cur):
        if o not in self.outs:
            z = dict(data=np.complex64, flags=bool, nsamples=np.float32)
            self.outs[o] = {w: {k: np.zeros((self.nt, self.nf), z[w]) for k in self.v.keys()} for w in WHAT}
            self.outs[o]["done"] = {k: np.zeros((self.nt, self.nf), bool) for k in self.v.keys()}
        ti, fi = self.sel[2:]
        ix = np.ix_(ti, fi)
        for k in cur["data"]:
            for w in WHAT:
                self.outs[o][w][k][ix] = cur[w][k]
            self.outs[o]["done"][k][ix] = True


def pieces(rng, v):
    """A partition of the file in shuffled order: list of (kw, pairs, pols, ti, fi)."""
    pairs, pols, T, F = list(v.antpairs), list(v.pols), list(range(len(v.times))), list(range(len(v.freqs)))
    by = rng.choice(["bls", "bls", "bls", "times", "times", "freqs", "pols", "whole"])
    out = []

    def split(x, n):
        return [x[i:i + n] for i in range(0, len(x), n)]
    if by == "bls":
        rng.shuffle(pairs)
        for c in split(pairs, rng.choice([1, 1, 2, 3, 50])):
            b = [q[::-1] if rng.random() < .25 else q for q in c]
            if rng.random() < .4:
                b = [tuple(q) + (p if q in v.antpairs else p[::-1],) for q in b for p in pols]
            out.append((dict(bls=b), c, pols, T, F))
    elif by == "times":
        n = rng.choice([1, 1, 2, 3])
        t = T[:]
        if rng.random() < .3:
            rng.shuffle(t)
        for c in split(t, n):
            c = sorted(c)
            out.append((dict(times=[float(x) for x in v.times[c]]), pairs, pols, c, F))
    elif by == "freqs":
        for c in split(F, rng.choice([1, 2, 3])):
            out.append((dict(freq_chans=list(c)) if rng.random() < .5 else dict(frequencies=[float(x) for x in v.freqs[c]]), pairs, pols, T, c))
    elif by == "pols":
        for c in split(rng.sample(pols, len(pols)), rng.choice([1, 2])):
            out.append((dict(polarizations=list(c)), pairs, [p for p in pols if p in c], T, F))
    else:
        out.append(({}, pairs, pols, T, F))
    if rng.random() < .5:
        rng.shuffle(out)
    return by, out


def newvals(seed, v, o):
    """The update an output is to receive, by element of the whole file."""
    nr = np.random.default_rng([seed, o])
    sh = (len(v.times), len(v.freqs))
    ups = {w: {} for w in WHAT}
    for k in v.keys():
        d = (nr.normal(size=sh) + 1j * nr.normal(size=sh)).astype(np.complex64)
        f = nr.random(sh) < .4
        n = nr.integers(0, 9, sh).astype(np.float32)
        c = nr.random(3)
        if k[0] == k[1] and k[2][0] == k[2][1]:
            d = np.abs(d) + 0j
        if c[0] < .75:
            ups["data"][k] = d.astype(np.complex64)
        if c[1] < .6:
            ups["flags"][k] = f
        if c[2] < .5:
            ups["nsamples"][k] = n
    for w in WHAT:      # both names of a cross-hand auto are updated consistently or not at all
        for k in list(ups[w]):
            t = twin(k)
            if t is not None and (k[2] > t[2] or t not in v.keys()):
                if t in v.keys():
                    del ups[w][k]
    return ups


def program(case, v):
    """Concrete steps: ('load', kw, sel) / ('update', ups, ts, fs) / ('pwrite', out, ups, inplace) / ('write', out)."""
    rng = random.Random(case["seed"])
    steps, bys = [], []
    sweeps = []
    for o in range(case["nout"]):
        by, ps = pieces(rng, v)
        bys.append(by)
        sweeps.append([(o,) + p for p in ps])
    mode = [rng.choice(["pwrite", "pwrite", "pwrite_inplace", "update_first"]) for _ in range(case["nout"])]
    share = case["nout"] == 2 and rng.random() < .35     # the same loaded piece goes to both outputs in turn
    if share:
        sweeps[1] = []
    flip = rng.random() < .4
    while any(sweeps):
        live = [s for s in sweeps if s]
        s = rng.choice(live) if case["interleave"] else live[0]
        o, kw, pairs, pols, ti, fi = s.pop(0)
        steps.append(("load", kw, (pairs, pols, ti, fi)))
        if rng.random() < case["distract"]:
            q = rng.choice(v.antpairs)
            steps.append(("load", dict(bls=[q]), ([q], list(v.pols), list(range(len(v.times))), list(range(len(v.freqs))))))
            steps.append(("load", kw, (pairs, pols, ti, fi)))
        for oo in ([o, 1] if share else [o]):
            whole = newvals(case["seed"], v, oo)
            ups = {}
            for w in WHAT:
                ups[w] = {}
                for k, x in whole[w].items():
                    if k[:2] in pairs and k[2] in pols:
                        y = x[np.ix_(ti, fi)]
                        t = twin(k)
                        if flip and k[0] != k[1] and rng.random() < .5:
                            ups[w][conj_key(k)] = np.conj(y)
                        else:
                            ups[w][k] = y
            if rng.random() < .3:
                items = {w: list(u.items()) for w, u in ups.items()}
                for w in WHAT:
                    rng.shuffle(items[w])
                ups = {w: dict(items[w]) for w in WHAT}
            m = mode[oo]
            if m == "update_first":
                if rng.random() < .5 and len(ti) > 1:
                    h = rng.randrange(1, len(ti))
                    parts = [(slice(0, h), slice(None)), (slice(h, len(ti)), slice(None))]
                elif len(fi) > 1:
                    h = rng.randrange(1, len(fi))
                    parts = [(slice(None), slice(h, len(fi))), (slice(None), slice(0, h))]
                else:
                    parts = [(slice(None), slice(None))]
                for ts, fs in parts:
                    steps.append(("update", {w: {k: x[ts, fs] for k, x in ups[w].items()} for w in WHAT}, ts, fs))
                steps.append(("pwrite", oo, {}, rng.random() < .5))
            else:
                steps.append(("pwrite", oo, ups, m == "pwrite_inplace"))
        if rng.random() < .15:
            steps.append(("write", len(steps)))
    return steps, bys


def expected(case, v):
    s = State(v)
    steps, bys = program(case, v)
    files = {}
    for st in steps:
        if st[0] == "load":
            s.load(*st[2])
        elif st[0] == "update":
            s.apply(st[1], st[2], st[3])
        elif st[0] == "pwrite":
            if st[3]:
                s.apply(st[2])
                s.write(st[1], s.cur)
            else:
                s.write(st[1], s.apply(st[2], base={w: {k: x.copy() for k, x in s.cur[w].items()} for w in WHAT}))
        else:
            files[st[1]] = ({w: {k: x.copy() for k, x in s.cur[w].items()} for w in WHAT}, v.times[s.sel[2]], v.freqs[s.sel[3]])
    return s.outs, files, steps, bys


def writer(path, steps, o, clobber, hist):
    """The real thing: one HERAData object performs the steps."""
    from hera_cal import io
    hd = io.HERAData(path)
    for st in steps:
        if st[0] == "load":
            hd.read(**st[1])
        elif st[0] == "update":
            kw = {w: io.DataContainer(dict(u)) for w, u in st[1].items() if u}
            hd.update(tSlice=st[2] if st[2] != slice(None) else None, fSlice=st[3] if st[3] != slice(None) else None, **kw)
        elif st[0] == "pwrite":
            kw = {w: io.DataContainer({k: x.copy() for k, x in u.items()}) for w, u in st[2].items() if u}
            keep = {w: {k: x.copy() for k, x in kw[w].items()} for w in kw}
            hd.partial_write(o + f"/o{st[1]}.uvh5", clobber=clobber, inplace=st[3], add_to_history=hist, **kw)
            for w in kw:
                if set(kw[w].keys()) != set(keep[w]) or any(not np.array_equal(kw[w][k], x) for k, x in keep[w].items()):
                    return f"partial_write changed the {w} container it was given"
        else:
            hd.write_uvh5(o + f"/w{st[1]}.uvh5", clobber=True, run_check=False, check_extra=False, run_check_acceptability=False)
    return None


def look(o, case, v, outs, files, hist, src):
    base = D.read_uvh5(src)
    for i, e in sorted(outs.items()):
        g = D.read_uvh5(o + f"/o{i}.uvh5")
        if g["antpairs"] != base["antpairs"] or g["raw_order"] != base["raw_order"] or g["pols"] != base["pols"] or not np.array_equal(g["freqs"], base["freqs"]):
            return f"output {i}: the axes are not those of the input"
        if not np.array_equal(g["lsts"], base["lsts"]) or any(not np.array_equal(g["int_of"][a], base["int_of"][a]) or not np.allclose(g["uvw_of"][a], base["uvw_of"][a]) for a in base["antpairs"]):
            return f"output {i}: LSTs, integration times or uvws differ from the input"
        if not g["history"].startswith(base["history"][:3]) or hist not in g["history"]:
            return f"output {i}: history is {g['history']!r}"
        for k in v.keys():
            m = e["done"][k]
            for w in WHAT:
                if not np.array_equal(g[w][k][m], e[w][k][m]):
                    bad = np.argwhere(m & (g[w][k] != e[w][k]))[0].tolist()
                    return f"output {i}: {w}{k} differs at {bad}: {g[w][k][tuple(bad)]}, expected {e[w][k][tuple(bad)]}"
    for i, (e, times, freqs) in sorted(files.items()):
        g = D.read_uvh5(o + f"/w{i}.uvh5")
        r = D.diff_vis(g, dict(e, times=times, freqs=freqs), tol=0)
        if r:
            return f"whole write {i}: {r}"
    return None


class Pieces(Scenario):
    lists = ("faults",)

    def gen(self, rng):
        p = dict(seed=rng.randrange(1 << 28), nants=rng.randint(2, 4), npol=rng.choice([1, 2, 4]), nf=rng.randint(1, 6), nt=[rng.randint(1, 5)],
                 autos=rng.random() < .7, dens=rng.choice([1, 1, .6]), flip=rng.random() < .4, start=rng.choice([.3, .45]), time_major=[rng.random() < .5])
        faults = pick_faults(rng, 1, ["crash", "torn", "crash_after", "err", "full"], ["any", "write", "write"]) if rng.random() < .35 else []
        return dict(p=p, seed=rng.randrange(1 << 28), nout=rng.choice([1, 1, 2, 2, 3]), interleave=rng.random() < .6, distract=rng.choice([0, .2]), faults=faults,
                    again=rng.random() < .3)

    def execute(self, case, d):
        st = Stats()
        os.makedirs(d + "/in")
        os.makedirs(d + "/out")
        (path, v), = build(case["p"], d)
        outs, files, steps, bys = expected(case, v)
        hist = "piecewise"
        plan, vio, r = [], None, None
        if case["faults"]:
            os.makedirs(d + "/prof")
            r0 = core.run_job(writer, path, steps, d + "/prof", False, hist)
            if r0.status == "ok":
                plan = resolve(case["faults"], r0.ops())
                rf = core.run_job(writer, path, steps, d + "/out", False, hist, plan=plan)
                st.job(rf)
                st.fired(plan, rf)
                if rf.fired and rf.status != "ok":
                    st.add("probe:interrupted")
        if case["again"] and not plan:
            core.run_job(writer, path, list(reversed([s for s in steps if s[0] == "load"])) + steps[:max(1, len(steps) // 2)], d + "/out", False, "other")
            st.add("probe:earlier_product")
        r = core.run_job(writer, path, steps, d + "/out", bool(plan or case["again"]), hist)
        st.job(r)
        for b in bys:
            st.add("probe:by_" + b)
        if r.status != "ok":
            vio = viol("write_failed", r.brief() + "\n" + r.tb)
        elif r.value:
            vio = viol("argument_changed", r.value)
        else:
            m = look(d + "/out", case, v, outs, files, hist, path)
            if m:
                vio = viol("piecewise_differs", m)
        return result(vio, (case, r.status, r.value, r.nops), len(steps) > 2, st, summary={"steps": len(steps), "by": bys},
                      trace={"plan": plan, "steps": [str([s[0]] + [x for x in s[1:] if not isinstance(x, dict) or s[0] == "load"])[:200] for s in steps]})

    def shrink(self, case, d):
        yield from super().shrink(case, d)
        for k, a in (("nout", 1), ("interleave", False), ("distract", 0), ("again", False)):
            if case[k] != a:
                yield cp(case, **{k: a})
        for k, alts in (("nants", [2]), ("npol", [1]), ("nf", [1, 2]), ("nt", [[1], [2]]), ("flip", [False]), ("autos", [False]), ("dens", [1])):
            for a in alts:
                if case["p"][k] != a:
                    c = cp(case)
                    c["p"][k] = a
                    yield c


# ------------------------------------------------------------------ gains
def cal_writer(path, ops, o, clobber):
    from hera_cal import io
    hc = io.HERACal(path)
    for k, op in enumerate(ops):
        if op[0] == "read":
            hc.read(**op[1])
        elif op[0] == "update":
            hc.update(tSlice=op[2], fSlice=op[3], **{w: {k2: x.copy() for k2, x in u.items()} for w, u in op[1].items() if u})
        else:
            hc.write(o + f"/w{op[1]}.calfits", clobber=clobber)


def cal_program(case, c):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    ants, pols, T, F = list(c.ants), list(c.pols), list(range(len(c.times))), list(range(len(c.freqs)))
    ops, cur, exp, sel = [], None, {}, None
    for n in range(case["nops"]):
        op = "read" if cur is None else rng.choice(["read", "update", "update", "update", "write"] if n < case["nops"] - 1 else ["write"])
        if op == "read":
            a, f, t, kw = ants, F, T, {}
            if rng.random() < .4:
                a = sorted(rng.sample(ants, rng.randint(1, len(ants))))
                kw["antenna_nums"] = list(a)
            if rng.random() < .3:
                f = list(range(*sorted(rng.sample(range(len(F) + 1), 2))))
                kw["freq_chans"] = list(f)
            if rng.random() < .3:
                i = rng.randrange(len(T))
                t = T[i:rng.randint(i + 1, len(T))]
                kw["times"] = [float(x) for x in c.times[t]]
            sel = (a, pols, t, f)
            cur = {w: {(x, q): getattr(c, w)[x, q][np.ix_(t, f)].copy() for x in a for q in pols} for w in ("gains", "flags", "quals")}
            cur["total_qual"] = {q: c.total_qual[q][np.ix_(t, f)].copy() for q in pols}
            ops.append(("read", kw))
        elif op == "update":
            a, _, t, f = sel
            ts = fs = None
            if rng.random() < .4:
                i = rng.randrange(len(t))
                ts = slice(i, rng.randint(i + 1, len(t)))
            if rng.random() < .4:
                i = rng.randrange(len(f))
                fs = slice(i, rng.randint(i + 1, len(f)))
            sh = (len(range(*(ts or slice(None)).indices(len(t)))), len(range(*(fs or slice(None)).indices(len(f)))))
            u = {}
            for w in ("gains", "flags", "quals", "total_qual"):
                ks = list(cur[w])
                ks = rng.sample(ks, rng.randint(0, len(ks)))
                mk = {"gains": lambda: (nr.normal(size=sh) + 1j * nr.normal(size=sh)).astype(np.complex64), "flags": lambda: nr.random(sh) < .5}.get(w, lambda: nr.random(sh).astype(np.float32))
                u[w] = {k: mk() for k in ks}
                for k in ks:
                    cur[w][k][ts or slice(None), fs or slice(None)] = u[w][k]
            ops.append(("update", u, ts, fs))
        else:
            exp[n] = ({w: {k: x.copy() for k, x in cur[w].items()} for w in cur}, c.times[sel[2]], c.freqs[sel[3]])
            ops.append(("write", n))
    return ops, exp


class CalPieces(Scenario):
    lists = ("faults",)

    def gen(self, rng):
        return dict(p=dict(seed=rng.randrange(1 << 28), nants=rng.randint(1, 4), npol=rng.choice([1, 2]), nf=rng.randint(1, 6), nt=rng.randint(1, 4)), seed=rng.randrange(1 << 28),
                    nops=rng.randint(3, 9), faults=pick_faults(rng, 1, ["crash", "torn", "err", "full"], ["write"]) if rng.random() < .3 else [])

    def execute(self, case, d):
        st = Stats()
        p = case["p"]
        os.makedirs(d + "/in")
        os.makedirs(d + "/out")
        ap = D.grid_antpos(random.Random(p["seed"]), max(p["nants"], 2), compact=True)
        c = D.Cal(ap, sorted(ap)[:p["nants"]], ["Jnn", "Jee"][:p["npol"]], D.times_for(D.JD0, .3, p["nt"]), D.freqs_for(p["nf"])).fill(np.random.default_rng(p["seed"]))
        path = d + "/in/c.calfits"
        c.write(path)
        ops, exp = cal_program(case, c)
        plan = []
        if case["faults"]:
            os.makedirs(d + "/prof")
            r0 = core.run_job(cal_writer, path, ops, d + "/prof", False)
            if r0.status == "ok":
                plan = resolve(case["faults"], r0.ops())
                rf = core.run_job(cal_writer, path, ops, d + "/out", False, plan=plan)
                st.job(rf)
                st.fired(plan, rf)
        r = core.run_job(cal_writer, path, ops, d + "/out", bool(plan))
        st.job(r)
        vio = None
        if r.status != "ok":
            vio = viol("cal_write_failed", r.brief() + "\n" + r.tb)
        for n, (e, t, f) in sorted(exp.items()):
            if vio:
                break
            g = D.read_calfits(d + f"/out/w{n}.calfits")
            m = D.diff_cal(g, dict(e, times=t, freqs=f), tol=0, what=("gains", "flags", "quals", "total_qual"))
            if m:
                vio = viol("cal_update_differs", f"step {n}: {m}")
        return result(vio, (case, r.status, r.nops), True, st, summary={"ops": [o[0] for o in ops]}, trace={"plan": plan, "ops": [str(o[0]) + " " + str(o[1] if o[0] != "update" else o[2:]) for o in ops]})


SCENARIOS = {"pieces": Pieces(), "gains": CalPieces()}
