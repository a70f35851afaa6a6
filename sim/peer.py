"""A second interpreter with another hash seed, in which a simulated job can be run.

Batch jobs of one pipeline run in different Python processes, each with its own
string-hash randomisation.  Forks of one simulator process share theirs, so a
scenario that needs jobs to agree across processes runs some of them here.
"""
from __future__ import annotations

import importlib
import os
import pickle
import struct
import subprocess
import sys

_peer = None


class Peer:
    def __init__(self):
        env = dict(os.environ)
        env.update(LD_PRELOAD=env["SIM_SO"], PYTHONHASHSEED=str((int(env.get("PYTHONHASHSEED", "0")) * 7 + 1013) % 4294967295))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-m", "sim.peer"], cwd=here, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, req):
        b = pickle.dumps(req, protocol=4)
        self.p.stdin.write(struct.pack("q", len(b)) + b)
        self.p.stdin.flush()
        n = self.p.stdout.read(8)
        if len(n) < 8:
            from .core import HarnessError
            raise HarnessError("the second interpreter died")
        return pickle.loads(self.p.stdout.read(struct.unpack("q", n)[0]))


def run_job(where, fn, *args, plan=(), seed=0, listseed=0):
    """core.run_job, here (where=0) or in the other interpreter (where=1)."""
    global _peer
    from . import core
    if not where:
        return core.run_job(fn, *args, plan=plan, seed=seed, listseed=listseed)
    if _peer is None:
        _peer = Peer()
    kind, val = _peer.ask((fn.__module__, fn.__name__, args, list(plan), seed, listseed))
    if kind == "harness":
        raise core.HarnessError(val)
    return val


def main():
    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    os.environ.pop("LD_PRELOAD", None)
    from . import core
    core.lib()
    core.set_prefix(os.environ["SIM_SCRATCH"])
    import logging
    logging.disable(logging.CRITICAL)
    from . import warm
    warm.warm(os.environ["SIM_SCRATCH"] + "/peer")
    import shutil
    shutil.rmtree(os.environ["SIM_SCRATCH"] + "/peer", ignore_errors=True)
    import traceback
    while True:
        n = inp.read(8)
        if len(n) < 8:
            return
        mod, name, args, plan, seed, listseed = pickle.loads(inp.read(struct.unpack("q", n)[0]))
        try:
            rep = ("ok", core.run_job(getattr(importlib.import_module(mod), name), *args, plan=plan, seed=seed, listseed=listseed))
        except Exception:
            rep = ("harness", traceback.format_exc())
        b = pickle.dumps(rep, protocol=4)
        out.write(struct.pack("q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
