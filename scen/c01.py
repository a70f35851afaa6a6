"""C01: parallel LST-stack reads equal the serial result under any schedule."""
from __future__ import annotations

from .lststack import *  # noqa


class Stack(Scenario):
    lists = ("files", "calls")
    minlen = {"files": 1, "calls": 1}
    simple = {"npol": 1, "nf": 2, "nants": 2, "redavg": False, "lstcal": False, "wrap": False}

    def gen(self, rng):
        return gen_case(rng)

    def execute(self, case, scratch):
        st = Stats()
        w = World(case, scratch)
        scheds = case.get("scheds") or [None] * len(case["calls"])
        res = core.run_job(run_calls, w, case["calls"], scheds)
        st.job(res)
        if res.status != "ok":
            return result(viol("job", "the reading job ended with " + res.brief() + "\n" + res.tb), (case,), True, st)
        ev, v, takens = [], None, []
        for k, (c, r) in enumerate(zip(case["calls"], res.value)):
            ev.append((r["hash"], r["steps"], r.get("exc"), r.get("dead")))
            takens.append(r["taken"])
            st.add("switches", r["nswitch"])
            if r["nthreads"] > 2:
                st.add("probe:several_reader_threads")
            if r["nswitch"] > 20:
                st.add("probe:over_20_switches")
            if k and c["share"]:
                st.add("probe:repeated_call_shared_arguments")
            if "dead" in r:
                v = viol("deadlock", f"call {k}: {r['dead']}")
            elif "exc" in r:
                if self.legit(w, c, r["exc"]):
                    st.add("probe:refused")
                    continue
                v = viol("raised", f"call {k} ({c['nw']} workers) raised on fault-free input: {r['exc']}\n{r['tb']}")
            elif r["left"]:
                v = viol("threads", f"call {k} left reader threads {r['left']}")
            else:
                m = compare(w, c, r["out"])
                if m:
                    v = viol("differs", f"call {k} of {len(case['calls'])} ({c['nw']} workers): {m}")
                else:
                    st.add("probe:rows", sum(len(x) for x in r["out"]["data"]))
            if v:
                break
        nt = any(r["nthreads"] > 2 for r in res.value) and any(len(x) for r in res.value if "out" in r for x in r["out"]["data"])
        return result(v, (case, ev), nt, st, summary={"files": len(case["files"]), "calls": [(c["nw"], r["steps"], r["nswitch"]) for c, r in zip(case["calls"], res.value)]},
                      trace={"switches": takens, "ev": ev})

    def legit(self, w, c, exc):
        # a calibration file none of whose integrations lie in the range is refused by the LST-cal loader;
        # that can only happen for a file with no matching integration at all
        if w.case["lstcal"] and "fall within the specified" in exc:
            return True
        return False

    def shrink(self, case, scratch):
        yield from super().shrink(case, scratch)
        for k in range(len(case["calls"])):
            for key, val in (("nw", 2), ("nw", 1), ("rephase", False), ("ignore", False), ("fmin", False), ("fmax", False), ("tidx", True), ("order", None),
                             ("polsel", False), ("instr", False), ("paths", "str"), ("share", False)):
                if case["calls"][k][key] != val and not (key == "nw" and case["calls"][k]["nw"] <= val):
                    c2 = cp(case)
                    c2["calls"][k][key] = val
                    yield c2
        for k in range(len(case["files"])):
            for key, val in (("drop", 0), ("flip", False), ("cal", False), ("inp", False), ("calmiss", False), ("calnt1", False), ("nt", 1), ("conv", "divide")):
                if case["files"][k][key] != val:
                    c2 = cp(case)
                    c2["files"][k][key] = val
                    yield c2
        # schedule: first make it explicit, then drop switches
        if not case.get("scheds"):
            r = self.execute(case, scratch)
            core.fresh(scratch)
            if r.get("trace"):
                sw = r["trace"]["switches"]
                yield cp(case, scheds=sw + [{}] * (len(case["calls"]) - len(sw)))
        else:
            for k, s in enumerate(case["scheds"]):
                keys = sorted(s, key=int)
                n = len(keys)
                if not n:
                    continue
                step = max(1, n // 2)
                while step >= 1:
                    for i in range(0, n, step):
                        keep = keys[:i] + keys[i + step:]
                        c2 = cp(case)
                        c2["scheds"][k] = {q: s[q] for q in keep}
                        yield c2
                    if step == 1 or n > 64 and step < n // 16:
                        break
                    step //= 2


SCENARIOS = {"stack": Stack()}
