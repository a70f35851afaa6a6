"""C04: no-overwrite leaves existing files alone; overwrite leaves nothing of the old file."""
from __future__ import annotations

from .pipeline import *  # noqa


class Clobber(Pipe):
    lists = ("trials",)
    minlen = {"trials": 1}

    def gen(self, rng):
        name, p = draw_stage(rng)
        p2 = STAGES[name].make(rng)

        def pre(out=None):
            return dict(out=round(rng.random(), 4) if out is None else out, what=rng.choice(["old", "old", "old", "same", "bytes", "bytes", "empty", "trunc", "wreck"]), frac=round(rng.random(), 4))
        trials, s0 = [], rng.randrange(60)
        for k in range(3):      # one existing file at a time: each output in turn
            faults = []
            if rng.random() < .2:
                faults = pick_faults(rng, rng.choice([1, 2]), ["crash", "torn", "err", "full", "sticky", "crash_after"], ["write", "firstwrite", "lastwrite", "any"])
            trials.append(dict(pre=[pre(s0 + k)] + ([pre()] if rng.random() < .2 else []), clobber=False, faults=faults))
        trials.append(dict(pre=[pre() for _ in range(rng.choice([1, 2, 3]))], clobber=True, faults=[]))
        return dict(stage=name, p=p, p2=p2, trials=trials, wreckfrac=round(rng.random(), 5))

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        for i, t in enumerate(case["trials"]):
            for key in ("faults", "pre"):
                for j in range(len(t[key])):
                    if key == "faults" or len(t[key]) > 1:
                        c = cp(case)
                        del c["trials"][i][key][j]
                        yield c

    def execute(self, case, d):
        st = Stats()
        name, p = case["stage"], case["p"]
        prepare(name, p, d)
        r, ref = reference(name, p, d, st)
        if r.status != "ok":
            return result(None, (case, r.status), False, st)
        outs = outs_of(name, p, ref)
        rc = contents(ref, outs)
        # an earlier product from other inputs, and the wreck of a killed attempt at it
        need = {q["what"] for t in case["trials"] for q in t["pre"]}
        old = wreck = None
        if need & {"old", "trunc"}:
            d2 = d + "/other"
            os.makedirs(d2)
            prepare(name, case["p2"], d2)
            r2, old = reference(name, case["p2"], d2, st)
            if r2.status != "ok":
                old = ref
        if "wreck" in need:
            wreck = d + "/wreck"
            os.makedirs(wreck)
            w = resolve([dict(cls="write", frac=case["wreckfrac"], act="torn" if case["wreckfrac"] < .5 else "crash", arg=100)], r.ops())
            rw = core.run_job(job, name, p, d, wreck, True, plan=w)
            st.job(rw)
            st.fired(w, rw)
        names = sorted(outs)
        v, evs, sm, tr, anyplaced = None, [], [], None, False
        for n, tl in enumerate(case["trials"]):
            if v:
                break
            o = d + f"/o{n}"
            os.makedirs(o)
            placed = {}
            for q in tl["pre"]:
                f = names[q["out"] % len(names) if isinstance(q["out"], int) else min(int(q["out"] * len(names)), len(names) - 1)]
                what = q["what"]
                if what == "empty" and f.endswith(".calfits"):
                    what = "bytes"       # astropy's FITS writer replaces zero-byte files whatever it is told
                src = {"old": old, "same": ref, "trunc": old, "wreck": wreck}.get(what)
                if src is not None:
                    cand = [x for x in listing(src) if not_cache(x) and x.rsplit(".", 1)[-1] == f.rsplit(".", 1)[-1]]
                    s = src + "/" + f if os.path.exists(src + "/" + f) else (src + "/" + cand[0] if cand else None)
                    if s is None:
                        what = "bytes"
                    else:
                        b = core.file_bytes(s)
                        if what == "same":
                            b += b"# checked by hand\n"      # the same product, yet not the same bytes
                        if what == "trunc":
                            b = b[:int(len(b) * q["frac"])]
                        if not b and f.endswith(".calfits"):
                            what = "bytes"
                if what == "bytes":
                    b = b"precious notes, not a data product\n" * (1 + int(q["frac"] * 4000))
                elif what == "empty":
                    b = b""
                with open(o + "/" + f, "wb") as fh:
                    fh.write(b)
                placed[f] = (what, b)
            plan = resolve(tl["faults"], r.ops())
            t = core.run_job(job, name, p, d, o, tl["clobber"], plan=plan)
            st.job(t)
            st.fired(plan, t)
            if not tl["clobber"]:
                st.add("probe:refused" if t.status == "exc" else "probe:returned")
                for f, (what, b) in placed.items():
                    now = core.file_bytes(o + "/" + f)
                    if now != b:
                        v = viol("overwritten:" + name, f"{name} without overwriting replaced the existing {f} ({what}, {len(b)} bytes -> {'gone' if now is None else len(now)}); job: {t.brief()}")
            else:
                if t.status != "ok":
                    v = viol("refused:" + name, f"{name} with overwriting failed over existing outputs {[(f, w) for f, (w, _) in placed.items()]}: {t.brief()}\n{t.tb}")
                else:
                    m = compare(o, outs, rc)
                    if m:
                        v = viol("residue:" + name, f"{name} with overwriting over {[(f, w) for f, (w, _) in placed.items()]} does not leave the new product: {m}")
                    st.add("probe:overwrote")
            for _, (w, _) in placed.items():
                st.add("probe:existing_" + w)
            anyplaced |= bool(placed)
            evs.append((t.status, t.exc_type, t.nops, t.fired, sorted(placed)))
            sm.append({"placed": {f: w for f, (w, _) in placed.items()}, "clobber": tl["clobber"], "outcome": t.brief()[:200]})
            tr = {"plan": plan, "log_tail": t.log.splitlines()[-40:]}
            shutil.rmtree(o, ignore_errors=True)
        return result(v, (case, evs), anyplaced, st, summary={"stage": name, "trials": sm}, trace=tr)


SCENARIOS = {"clobber": Clobber()}
