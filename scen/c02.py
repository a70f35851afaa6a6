"""C02: a failed read in a parallel LST stack is raised, and the next call is complete."""
from __future__ import annotations

from .lststack import *  # noqa


class Faulty(Scenario):
    lists = ("files", "faults")
    minlen = {"files": 1, "faults": 0}
    simple = {"npol": 1, "nf": 2, "nants": 2, "redavg": False, "lstcal": False, "wrap": False, "memfrac": None, "break": None}

    def gen(self, rng):
        case = gen_case(rng)
        while len(case["files"]) < 2:
            case["files"].append(dict(case["files"][0], night=5))
        for f in case["files"]:
            if abs(f["off"]) > 6:
                f["off"] = 0.3
        c = case["calls"][0]
        c["nw"] = rng.choice([1, 2, 2, 3, 3, 4])
        c.update(e0=-3.3, bw=2.1, nb=5, instr=False)
        # second call: the same request again, faults gone
        case["calls"] = [c, dict(c, sseed=rng.randrange(1 << 30))]
        mode = rng.choice(["io", "io", "io", "mem", "break"])
        case["faults"], case["memfrac"], case["break"] = [], None, None
        if mode == "io":
            case["faults"] = pick_faults(rng, rng.choice([1, 1, 1, 2, 3]), ["err", "err", "err", "sticky", "short"], ["read", "read", "open_r", "any"])
        elif mode == "mem":
            case["memfrac"] = round(rng.random(), 6)
        else:
            case["break"] = dict(file=rng.randrange(len(case["files"])), what=rng.choice(["vis", "cal", "inp"]),
                                 how=rng.choice(["missing", "truncate", "zero", "text", "nodata"]), frac=round(rng.random(), 3))
        return case

    def execute(self, case, scratch):
        st = Stats()
        w = World(case, scratch)
        calls = case["calls"]
        scheds = case.get("scheds") or [None] * len(calls)
        # profile: same schedule, no fault
        prof = core.run_job(run_calls, w, calls[:1], scheds[:1])
        st.job(prof)
        if prof.status != "ok":
            raise core.HarnessError("profile run: " + prof.brief() + prof.tb)
        p0 = prof.value[0]
        if "out" not in p0:
            return result(None, (case, "refused"), False, st)
        m = compare(w, calls[0], p0["out"])
        if m:
            # fault-free difference: C01's business
            return result(None, (case, "profile differs"), False, st)
        plan, mem = [], None
        kw = {}
        if case["faults"]:
            plan = resolve(case["faults"], prof.ops())
        if case["memfrac"] is not None:
            mem = 1 + int(case["memfrac"] * p0["lines"])
        broken = None
        if case["break"]:
            b = case["break"]
            e = w.files[b["file"]]
            broken = {"vis": e["path"], "cal": e["calpath"], "inp": e["inppath"]}[b["what"]] or e["path"]
        res = core.run_job(body, w, calls, scheds, mem, broken, case["break"], plan=plan)
        st.job(res)
        st.fired(plan, res)
        if res.status != "ok":
            return result(viol("job", "the reading job ended with " + res.brief() + "\n" + res.tb), (case, res.status), True, st)
        v, r = None, res.value[0]
        st.add("switches", r["nswitch"])
        hit = bool(res.fired) or r["memfired"] or broken is not None
        if r["memfired"]:
            st.add("fault:alloc_failure")
        if broken:
            st.add("fault:file_" + case["break"]["how"])
        if "dead" in r:
            v = viol("deadlock", f"after the fault the call did not return: {r['dead']}")
        elif r["left"]:
            v = viol("threads", f"the call returned ({r.get('exc', 'no error')}) with reader threads {r['left']} still running")
        elif "out" in r:
            if "diskfault" in r:
                pass
            m = compare(w, calls[0], r["out"])
            if m:
                v = viol("absorbed", f"a failed read was absorbed: the call returned normally, but {m}; fault: {plan or ('allocation failure at line event', mem) if not broken else case['break']}")
            else:
                st.add("probe:fault_harmless")
        else:
            st.add("probe:fault_raised")
        if v is None and len(res.value) > 1:
            r2 = res.value[1]
            if "dead" in r2:
                v = viol("retry_deadlock", f"retry after the fault: {r2['dead']}")
            elif "exc" in r2:
                v = viol("retry_raised", f"the fault is gone, yet the same call raised {r2['exc']}\n{r2['tb']}")
            else:
                m = compare(w, calls[1], r2["out"])
                if m:
                    v = viol("retry_differs", f"the fault is gone, but the repeated call is wrong: {m}")
            st.add("probe:retried_in_same_process")
        return result(v, (case, [(q["hash"], q.get("exc"), q["steps"]) for q in res.value], plan, res.fired), hit and p0["nthreads"] > 1, st,
                      summary={"outcome": r.get("exc") or "returned", "plan": plan, "workers": calls[0]["nw"], "steps": r["steps"]},
                      trace={"switches": [q["taken"] for q in res.value], "plan": plan, "log_tail": res.log.splitlines()[-30:]})

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        for k in range(len(case["files"])):
            for key, val in (("drop", 0), ("flip", False), ("cal", False), ("inp", False), ("calmiss", False), ("calnt1", False), ("nt", 1), ("conv", "divide")):
                if case["files"][k][key] != val:
                    c2 = cp(case)
                    c2["files"][k][key] = val
                    yield c2
        for key, val in (("nw", 2), ("nw", 1), ("rephase", False), ("fmin", False), ("fmax", False), ("tidx", True), ("order", None), ("polsel", False)):
            if case["calls"][0][key] != val and not (key == "nw" and case["calls"][0]["nw"] <= val):
                c2 = cp(case)
                for c in c2["calls"]:
                    c[key] = val
                yield c2
        for p in (.003,):
            if case["calls"][0]["p"] > p:
                c2 = cp(case)
                for c in c2["calls"]:
                    c["p"] = p
                yield c2


def body(w, calls, scheds, mem, broken, brk):
    """First call with the fault, then the same call without."""
    saved = None
    if broken:
        with open(broken, "rb") as f:
            saved = f.read()
        how = brk["how"]
        if how == "missing":
            os.rename(broken, broken + ".away")
        elif how == "nodata":
            if broken.endswith(".calfits"):
                with open(broken, "wb") as f:
                    f.write(saved[:2880])
            else:
                with h5py.File(broken, "r+") as f:
                    for g in ("Data", "data"):
                        if g in f:
                            for d in list(f[g]):
                                del f[g][d]
        else:
            with open(broken, "wb") as f:
                f.write({"truncate": saved[:int(len(saved) * brk["frac"])], "zero": b"\0" * len(saved), "text": b"not a data file\n" * 40}[how])
    out = run_calls(w, calls[:1], scheds[:1], memfault=mem)
    if "dead" in out[0] or out[0]["left"]:
        return out
    if saved is not None:
        if brk["how"] == "missing":
            os.rename(broken + ".away", broken)
        else:
            with open(broken, "wb") as f:
                f.write(saved)
    # faults are over: the plan is spent and a sticky disk error has been cleared
    core.region(0).s.nplan = 0
    core.region(0).s.sticky = 0
    core.region(0).s.full = 0
    return out + run_calls(w, calls[1:], scheds[1:])


SCENARIOS = {"faulty": Faulty()}
