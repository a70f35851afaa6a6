"""C05: inputs and neighbouring files stay as they were, whatever happens to the job."""
from __future__ import annotations

from .pipeline import *  # noqa

NEIGHBOURS = ("notes.txt", "other.uvh5", "out.uvh5.keep", "zen.1.sum.calfits")


def neighbours(o):
    for n in NEIGHBOURS:
        with open(o + "/" + n, "wb") as f:
            f.write(n.encode() * 50)


def disturbed(before, d, outs, o, status):
    """Which file other than a named output changed."""
    now = core.tree_hash(d + "/in")
    for f in sorted(set(before) | set(now)):
        if before.get(f) != now.get(f):
            what = "removed" if f not in now else ("created beside the inputs" if f not in before else "modified")
            return "input", f"{f} was {what}"
    for n in NEIGHBOURS:
        if core.file_bytes(o + "/" + n) != n.encode() * 50:
            return "neighbour", f"unrelated file {n} in the output directory changed"
    if os.path.isdir(d + "/cwd") and listing(d + "/cwd"):
        return "stray", f"files {listing(d + '/cwd')} appeared in the working directory"
    if status == "ok":
        extra = [f for f in listing(o) if f not in outs and f not in NEIGHBOURS and not_cache(f)]
        if extra:
            return "stray", f"files {extra} were written, which the caller did not name"
    return None


class Inputs(Pipe):
    lists = ("trials",)

    def gen(self, rng):
        name, p = draw_stage(rng)
        trials = []
        for _ in range(4):
            faults = pick_faults(rng, rng.choice([1, 1, 2, 3]), ["crash", "crash", "torn", "err", "err", "full", "sticky", "short", "crash_after"],
                                 ["any", "write", "read", "infile", "lastwrite", "firstwrite"])
            trials.append(dict(faults=faults, retry=rng.random() < .3, clobber=rng.random() < .5))
        return dict(stage=name, p=p, trials=trials)

    def execute(self, case, d):
        st = Stats()
        name, p = case["stage"], case["p"]
        prepare(name, p, d)
        before = core.tree_hash(d + "/in")
        ref = d + "/ref"
        r, ref = reference(name, p, d, st)
        outs = outs_of(name, p, ref) if r.status == "ok" else {}
        neighbours(ref)
        x = disturbed(before, d, outs, ref, r.status)
        v, evs, sm, tr, hit = None, [], [], None, False
        if x:
            v = viol(f"{x[0]}:{name}", f"{name}, run without faults: {x[1]}")
        for n, tl in enumerate(case["trials"]):
            if v:
                break
            o = d + f"/o{n}"
            os.makedirs(o)
            neighbours(o)
            plan = resolve(tl["faults"], r.ops())
            t = core.run_job(job, name, p, d, o, tl["clobber"], plan=plan)
            st.job(t)
            st.fired(plan, t)
            hit |= bool(t.fired)
            x = disturbed(before, d, outs, o, t.status)
            if x:
                v = viol(f"{x[0]}:{name}", f"{name}, {t.brief()}: {x[1]}")
            elif tl["retry"]:
                t2 = core.run_job(job, name, p, d, o, True)
                st.job(t2)
                x = disturbed(before, d, outs, o, "exc")
                if x:
                    v = viol(f"{x[0]}:{name}", f"{name}, run again after {t.brief()}: {x[1]}")
            evs.append((t.status, t.exc_type, t.nops, t.fired))
            sm.append(t.brief()[:200])
            tr = {"plan": plan, "log_tail": t.log.splitlines()[-40:]}
            shutil.rmtree(o, ignore_errors=True)
        return result(v, (case, r.status, evs), hit, st, summary={"stage": name, "outcomes": sm, "inputs": len(before)}, trace=tr)


class Sharing(Pipe):
    """Two jobs at a time on the same inputs."""

    def gen(self, rng):
        name, p = draw_stage(rng)
        while STAGES[name].cost > 1:
            name, p = draw_stage(rng)
        faults = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append({"job": rng.randrange(2), "cls": rng.choice(["any", "write", "read"]), "k": rng.choice([0, 1, 3, 8, 20, 50, 120, 300]),
                               "act": rng.choice(["crash", "torn", "err", "full"]), "err": rng.choice(["EIO", "ENOSPC", "ESTALE"]), "arg": 100})
        return dict(stage=name, p=p, faults=faults, sched=dict(seed=rng.randrange(1 << 30), p=rng.choice([.02, .1, .4, 1.0])))

    def execute(self, case, d):
        st = Stats()
        name, p = case["stage"], case["p"]
        prepare(name, p, d)
        before = core.tree_hash(d + "/in")
        r, ref = reference(name, p, d, st)
        if r.status != "ok":
            return result(None, (case, r.status), False, st)
        outs = outs_of(name, p, ref)
        rc = contents(ref, outs)
        os_ = [d + "/o0", d + "/o1"]
        for o in os_:
            os.makedirs(o)
            neighbours(o)
        pol = Grants(case["sched"], case["faults"])
        cl = core.Cluster([(job, (name, p, d, o, False), k, None) for k, o in enumerate(os_)], pol)
        res = cl.run()
        v = None
        for f in pol.fired:
            st.add("fault:" + f["act"] + ("_" + f["err"] if f["act"] == "err" else ""))
        hit = {f["job"] for f in pol.fired}
        for k, (o, t) in enumerate(zip(os_, res)):
            st.job(t)
            x = disturbed(before, d, outs, o, t.status)
            if x:
                v = v or viol(f"{x[0]}:{name}", f"two {name} jobs on the same inputs ({[q.brief() for q in res]}): {x[1]}")
            if k not in hit:
                if t.status != "ok":
                    v = v or viol("interference:" + name, f"{name} failed only because another job used the same inputs (which ended with {res[1 - k].brief()}): {t.brief()}\n{t.tb}")
                else:
                    m = compare(o, outs, rc)
                    if m:
                        v = v or viol("interference:" + name, f"{name} beside another job on the same inputs: {m}")
                    st.add("probe:undisturbed")
        st.add("switches", len(pol.taken))
        return result(v, (case, [(t[1], t[2], os.path.basename(t[3])) for t in cl.trace], pol.fired), len(pol.taken) > 4, st,
                      summary={"stage": name, "grants": len(cl.trace), "outcomes": [q.brief() for q in res], "fired": pol.fired},
                      trace={"runs": pol.taken, "fired": pol.fired})

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        if "runs" not in case["sched"]:
            r = self.execute(case, core.fresh(scratch))
            core.fresh(scratch)
            if r.get("trace"):
                yield cp(case, sched={"runs": r["trace"]["runs"]})
        else:
            yield cp(case, sched={"runs": []})


SCENARIOS = {"inputs": Inputs(), "sharing": Sharing()}
