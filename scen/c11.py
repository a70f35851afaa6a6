"""C11: a job that was interrupted and is run again gives the uninterrupted result."""
from __future__ import annotations

from .pipeline import *  # noqa


def inside_h5py(tb):
    files = [x for x in tb.splitlines() if x.lstrip().startswith('File "')]
    return bool(files) and "h5py" in files[-1]


class Rerun(Pipe):
    lists = ("trials",)
    minlen = {"trials": 1}

    def gen(self, rng):
        name, p = draw_stage(rng)
        trials = []
        for k in range(3):
            same = rng.random() < .3
            att = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                acts = ["err", "err", "full", "sticky", "short"] if same else ["crash", "crash", "crash", "torn", "torn", "crash_after", "err", "full", "sticky"]
                att.append(pick_faults(rng, rng.choice([1, 1, 2]), acts, ["write", "write", "write", "lastwrite", "firstwrite", "any", "read", "rename", "close_w", "trunc"]))
            trials.append(dict(attempts=att[:1] if same else att, same=same, stale=rng.random() < .3))
        return dict(stage=name, p=p, trials=trials, p2=STAGES[name].make(rng))

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        for i, t in enumerate(case["trials"]):
            for k in ("same", "stale"):
                if t[k]:
                    c = cp(case)
                    c["trials"][i][k] = False
                    yield c
            for j in range(len(t["attempts"])):
                if len(t["attempts"]) > 1:
                    c = cp(case)
                    del c["trials"][i]["attempts"][j]
                    yield c

    def execute(self, case, d):
        st = Stats()
        name, p = case["stage"], case["p"]
        prepare(name, p, d)
        r, ref = reference(name, p, d, st)
        if r.status != "ok":
            return result(viol("stage:" + name, f"{name} failed without any fault: {r.brief()}\n{r.tb}"), (case, r.status), True, st)
        outs = outs_of(name, p, ref)
        rc = contents(ref, outs)
        old = None
        v, anyhit, evs, sm, tr = None, False, [], [], None
        for n, tl in enumerate(case["trials"]):
            if v:
                break
            o = d + f"/o{n}"
            if tl["stale"]:
                # the directory holds the products of an earlier campaign
                if old is None:
                    d2 = d + "/other"
                    os.makedirs(d2)
                    prepare(name, case["p2"], d2)
                    old = d + "/old"
                    os.makedirs(old)
                    core.run_job(job, name, case["p2"], d2, old, True)
                    shutil.rmtree(old + "/cache", ignore_errors=True)
                shutil.copytree(old, o)
            else:
                os.makedirs(o)
            ev, hit, plans = [], False, []
            for k, faults in enumerate(tl["attempts"]):
                plan = resolve(faults, r.ops())
                plans.append(plan)
                if tl["same"] and k == len(tl["attempts"]) - 1:
                    break
                t = core.run_job(job, name, p, d, o, True, plan=plan)
                st.job(t)
                st.fired(plan, t)
                ev.append((t.status, t.exc_type, t.fired, t.nops))
                hit |= t.status != "ok" or bool(t.fired)
            if tl["same"]:
                t = core.run_job(retry_job, name, p, d, o, True, plan=plans[-1])
                st.fired(plans[-1], t)
                hit |= bool(t.fired)
                st.add("probe:retry_in_same_process")
                if t.fired and (t.status == "signal" or t.status == "exc" and inside_h5py(t.tb)):
                    # the library underneath (HDF5, left with a half-closed file) did not survive the error: a new process runs the job again
                    st.add("probe:library_died")
                    t = core.run_job(job, name, p, d, o, True)
            elif hit or tl["stale"]:
                t = core.run_job(job, name, p, d, o, True)
            st.job(t)
            if t.status != "ok":
                v = viol("rerun_failed:" + name, f"{name}: the rerun failed although the fault is over: {t.brief()} (earlier attempts: {[e[:2] for e in ev]})\n{t.tb}")
            else:
                m = compare(o, outs, rc)
                if m:
                    v = viol("rerun_differs:" + name, f"{name}: after interruption ({[e[:2] for e in ev] or 'error in the same process'}) and rerun, {m}")
            if hit:
                st.add("probe:reran")
            anyhit |= hit
            evs.append((ev, t.status, t.exc_type, t.nops, t.value))
            sm.append(dict(attempts=ev, same_process=tl["same"], stale=tl["stale"], rerun=t.brief()[:200]))
            tr = {"plans": plans, "log_tail": t.log.splitlines()[-40:]}
            shutil.rmtree(o, ignore_errors=True)
        return result(v, (case, evs), anyhit, st, summary={"stage": name, "trials": sm}, trace=tr)


SCENARIOS = {"rerun": Rerun()}
