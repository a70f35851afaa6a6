"""Zygote: imports everything once, then executes cases in forked jobs.

Protocol (JSON lines on stdin/stdout):
  {"cmd": "run", "prop": .., "scen": .., "index": .., "seed": ..}
  {"cmd": "case", "prop": .., "scen": .., "case": {..}}      (replay / minimise)
"""
from __future__ import annotations

import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings


def main():
    scratch = os.environ["SIM_SCRATCH"]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    os.environ.pop("LD_PRELOAD", None)
    from . import core
    core.lib()
    core.set_prefix(scratch)
    os.makedirs(scratch, exist_ok=True)
    import logging
    logging.disable(logging.CRITICAL)
    from . import warm
    warm.warm(scratch)
    out.write(json.dumps({"ready": True, "hera_cal": warm.where()}) + "\n")
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        t0 = time.time()
        rep = {"id": req.get("id")}
        try:
            key = req["prop"]
            if key not in mods:
                mods[key] = importlib.import_module(f"scen.{key.lower()}")
            sc = mods[key].SCENARIOS[req["scen"]]
            if req["cmd"] == "shrink":
                core.fresh(scratch)
                out.write(json.dumps({"cands": list(sc.shrink(req["case"], scratch))}) + "\n")
                out.flush()
                continue
            if req["cmd"] == "run":
                rng = random.Random(f"{req['seed']}/{key}/{req['scen']}/{req['index']}")
                rng.index, rng.base = req["index"], req["seed"]
                case = sc.gen(rng)
            else:
                case = req["case"]
            case = json.loads(json.dumps(case))
            core.fresh(scratch)
            res = sc.execute(case, scratch)
            rep.update(case=case, **res)
        except core.HarnessError as e:
            rep.update(harness=str(e)[-4000:], case=locals().get("case"))
        except Exception:
            rep.update(harness=traceback.format_exc()[-4000:], case=locals().get("case"))
        finally:
            core.fresh(scratch)
        rep["wall"] = round(time.time() - t0, 3)
        out.write(json.dumps(rep, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
