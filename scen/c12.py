"""C12: an I/O error never becomes a wrong result reported as success."""
from __future__ import annotations

from .pipeline import *  # noqa


def spoil(path, how, frac):
    b = core.file_bytes(path)
    if how == "missing":
        os.unlink(path)
        return
    if how == "truncate":
        b = b[:int(len(b) * frac)]
    elif how == "zero":
        b = b"\0" * len(b)
    elif how == "text":
        b = b"not a data file\n" * 50
    with open(path, "wb") as f:
        f.write(b)


class Errors(Pipe):
    lists = ("tries",)
    minlen = {"tries": 1}

    def gen(self, rng):
        name, p = draw_stage(rng)
        tries = []
        for k in range(6):
            if k >= 4:
                tries.append(dict(faults=[], spoil=dict(which=round(rng.random(), 4), how=rng.choice(["missing", "truncate", "zero", "text"]), frac=round(rng.random() * .98, 4))))
            else:
                cls = ["infile", "infile", "infile_open"] if k < 2 else ["any", "write", "write", "read", "lastwrite", "open_r", "open_w", "close_w", "listdir"]
                tries.append(dict(spoil=None, faults=pick_faults(rng, 1 if k < 2 else rng.choice([1, 1, 2, 3]), ["err", "err", "err", "full", "sticky", "short"], cls)))
        return dict(stage=name, p=p, tries=tries)

    def execute(self, case, d):
        st = Stats()
        name, p = case["stage"], case["p"]
        prepare(name, p, d)
        r, ref = reference(name, p, d, st)
        if r.status != "ok":
            return result(None, (case, r.status), False, st)
        outs = outs_of(name, p, ref)
        rc = contents(ref, outs)
        v, anyhit, ev, sm, tr = None, False, [], [], None
        for k, y in enumerate(case["tries"]):
            if v:
                break
            hit, what, keep = False, None, None
            if y["spoil"]:
                q = y["spoil"]
                fs = [f for f in listing(d + "/in") if q["how"] != "truncate" or not f.endswith((".calfits", ".yaml", ".x"))]
                if not fs:
                    continue
                f = fs[min(int(q["which"] * len(fs)), len(fs) - 1)]
                keep = (d + "/in/" + f, core.file_bytes(d + "/in/" + f))
                spoil(d + "/in/" + f, q["how"], q["frac"])
                st.add("fault:file_" + q["how"])
                hit, what = True, f"{f} {q['how']}"
                if f.endswith(".yaml") or q["how"] == "missing" and name == "lst_bin_files":
                    hit = False      # nothing says this input has to be there
            plan = resolve(y["faults"], r.ops())
            o = d + f"/o{k}"
            os.makedirs(o)
            t = core.run_job(job, name, p, d, o, False, plan=plan)
            st.job(t)
            st.fired(plan, t)
            if keep:
                with open(keep[0], "wb") as fh:
                    fh.write(keep[1])
            hit |= bool(t.fired)
            anyhit |= hit
            if t.status == "hang":
                v = viol("died:" + name, f"{name}: {t.brief()} after {what or plan}")
            elif t.status == "ok" and hit:
                m = compare(o, outs, rc, core_only=True)
                if m and "Exception ignored in" in t.err_tail and "h5py._objects" in t.err_tail:
                    # h5py met the error while a dataset object was being deallocated and reported it to nobody
                    st.add("probe:swallowed_by_h5py")
                elif m:
                    v = viol("absorbed:" + name, f"{name} returned normally after {what or plan}, but {m}")
                else:
                    st.add("probe:fault_harmless")
            elif t.status == "signal":
                st.add("probe:library_died")      # not a success report
            elif hit:
                st.add("probe:fault_raised")
            ev.append((t.status, t.exc_type, t.nops, t.fired))
            sm.append((str(what or plan)[:120], t.brief()[:120]))
            tr = {"plan": plan, "log_tail": t.log.splitlines()[-40:]}
        return result(v, (case, ev), anyhit, st, summary={"stage": name, "tries": sm}, trace=tr)


SCENARIOS = {"errors": Errors()}
