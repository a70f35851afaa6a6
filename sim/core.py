"""Jobs, fault plans and multi-job clusters on top of the simfs storage seam.

A *job* is a Python callable run in a fork of the (already imported, otherwise
idle) simulator process.  All of its file-system calls below the scratch prefix
go through simfs.c.  ``run_job`` runs one job under a fault plan; ``Cluster``
runs several jobs whose every file-system call is granted one at a time by a
seeded scheduler.
"""
from __future__ import annotations

import ctypes
import errno
import hashlib
import mmap
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import sys
import traceback
import warnings

MAXPLAN = 64
LOGCAP = 1 << 20

OPS = ["?", "open_r", "open_w", "read", "write", "trunc", "fsync", "close_w",
       "rename", "unlink", "mkdir", "listdir", "mmap", "stat"]
A_OK, A_ERR, A_SHORT, A_FULL, A_CRASH_BEFORE, A_TORN, A_CRASH_AFTER, A_STICKY = range(8)
ACTIONS = {"ok": A_OK, "err": A_ERR, "short": A_SHORT, "full": A_FULL, "crash": A_CRASH_BEFORE,
           "torn": A_TORN, "crash_after": A_CRASH_AFTER, "sticky": A_STICKY}
CRASH_CODE = 77
JOB_TIMEOUT = 240


class Plan(ctypes.Structure):
    _fields_ = [("at", ctypes.c_uint32), ("action", ctypes.c_uint32), ("err", ctypes.c_int32), ("arg", ctypes.c_uint32)]


class RegionS(ctypes.Structure):
    _fields_ = [("mode", ctypes.c_int32), ("req_fd", ctypes.c_int32), ("resp_fd", ctypes.c_int32),
                ("nops", ctypes.c_uint32), ("nplan", ctypes.c_uint32), ("full", ctypes.c_uint32),
                ("sticky", ctypes.c_uint32), ("nfired", ctypes.c_uint32), ("listseed", ctypes.c_uint32),
                ("loglen", ctypes.c_uint32), ("logdrop", ctypes.c_uint32), ("count", ctypes.c_uint32 * 16),
                ("firedat", ctypes.c_uint32 * MAXPLAN), ("inputopenw", ctypes.c_uint32),
                ("plan", Plan * MAXPLAN), ("log", ctypes.c_char * LOGCAP)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        try:
            L.simfs_present
        except AttributeError:
            raise RuntimeError("simfs.so is not preloaded")
        L.simfs_region_size.restype = ctypes.c_size_t
        L.simfs_attach.argtypes = [ctypes.c_void_p]
        L.simfs_prefix.argtypes = [ctypes.c_char_p]
        assert L.simfs_region_size() == ctypes.sizeof(RegionS), (L.simfs_region_size(), ctypes.sizeof(RegionS))
        _lib = L
    return _lib


class Region:
    def __init__(self):
        self.m = mmap.mmap(-1, (ctypes.sizeof(RegionS) + 4095) // 4096 * 4096)
        self.s = RegionS.from_buffer(self.m)

    def reset(self):
        s = self.s
        hdr = ctypes.sizeof(RegionS) - LOGCAP
        ctypes.memset(ctypes.addressof(s), 0, hdr)

    def set_plan(self, plan):
        for i, f in enumerate(plan[:MAXPLAN]):
            p = self.s.plan[i]
            p.at, p.action = f["at"], ACTIONS[f["act"]]
            p.err = getattr(errno, f.get("err", "EIO"))
            p.arg = f.get("arg", 128)
        self.s.nplan = min(len(plan), MAXPLAN)

    def log(self):
        raw = ctypes.string_at(ctypes.addressof(self.s) + RegionS.log.offset, self.s.loglen)
        return raw.decode("utf8", "replace")


_regions: list[Region] = []


def region(i):
    while len(_regions) <= i:
        _regions.append(Region())
    return _regions[i]


class JobResult:
    """What a job did: status is ok / exc / crash / hang / signal."""

    def __init__(self):
        self.status = None
        self.value = None
        self.exc = None
        self.exc_type = None
        self.tb = ""
        self.log = ""
        self.nops = 0
        self.fired = []
        self.count = {}
        self.err_tail = ""

    def brief(self):
        return f"{self.status}" + (f" {self.exc_type}: {self.exc}"[:300] if self.exc_type else "")

    def ops(self):
        out = []
        for line in self.log.splitlines():
            a = line.split(" ")
            out.append((int(a[0]), a[1], " ".join(a[2:-3]), int(a[-3]), int(a[-2])))
        return out


def set_prefix(path):
    p = path.rstrip("/") + "/"
    lib().simfs_prefix(p.encode())


def _child(fn, args, reg, fd_out, fd_err, seed, remote):
    """Body of a job process. Never returns."""
    import gc
    gc.freeze()      # when the collector runs must not depend on what this worker did before
    gc.collect()
    code = 0
    try:
        signal.alarm(JOB_TIMEOUT)
        os.dup2(fd_err, 2)
        os.dup2(fd_err, 1)
        random.seed(seed)
        import numpy as np
        np.random.seed(seed & 0xFFFFFFFF)
        warnings.simplefilter("ignore")
        lib().simfs_wipe_stack()
        lib().simfs_attach(ctypes.addressof(reg.s))
        reg.s.mode = 2 if remote else 1
        try:
            val = fn(*args)
            payload = ("ok", val, None, None, "")
        except BaseException as e:  # noqa: a job may die of anything
            payload = ("exc", None, type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:])
        reg.s.mode = 0
        try:
            blob = pickle.dumps(payload, protocol=4)
        except BaseException as e:
            blob = pickle.dumps(("harness", None, type(e).__name__, str(e), traceback.format_exc()), protocol=4)
        with os.fdopen(fd_out, "wb") as f:
            f.write(blob)
    except BaseException:
        try:
            traceback.print_exc()
        except BaseException:
            pass
        code = 3
    finally:
        os._exit(code)


def _collect(res, status, reg, fd_out, fd_err):
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        res.status = "hang" if sig == signal.SIGALRM else "signal"
        res.exc_type, res.exc = "Signal", str(sig)
    elif os.WEXITSTATUS(status) == CRASH_CODE:
        res.status = "crash"
    elif os.WEXITSTATUS(status) != 0:
        res.status = "harness"
        res.exc = f"exit {os.WEXITSTATUS(status)}"
    else:
        os.lseek(fd_out, 0, 0)
        with os.fdopen(os.dup(fd_out), "rb") as f:
            res.status, res.value, res.exc_type, res.exc, res.tb = pickle.loads(f.read())
    res.log = reg.log()
    res.nops = reg.s.nops
    res.fired = [int(x) for x in reg.s.firedat[:min(reg.s.nfired, MAXPLAN)]]
    res.count = {OPS[i]: int(c) for i, c in enumerate(reg.s.count) if c and i < len(OPS)}
    os.lseek(fd_err, 0, 0)
    sz = os.fstat(fd_err).st_size
    os.lseek(fd_err, max(0, sz - 60000), 0)
    res.err_tail = os.read(fd_err, 60000).decode("utf8", "replace")
    os.close(fd_out)
    os.close(fd_err)
    if res.status == "harness":
        raise HarnessError(f"{res.exc_type} {res.exc}\n{res.tb}\n{res.err_tail[-3000:]}")


class HarnessError(Exception):
    pass


def run_job(fn, *args, plan=(), seed=0, listseed=0):
    reg = region(0)
    reg.reset()
    reg.set_plan(list(plan))
    reg.s.listseed = listseed & 0xFFFFFFFF
    fd_out, fd_err = os.memfd_create("out"), os.memfd_create("err")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        _child(fn, args, reg, fd_out, fd_err, seed, False)
    _, status = os.waitpid(pid, 0)
    res = JobResult()
    _collect(res, status, reg, fd_out, fd_err)
    return res


REQ = struct.Struct("iiqq240s240s")
RESP = struct.Struct("iiii")


class Cluster:
    """Runs several jobs, granting one file-system call at a time.

    jobs: list of (fn, args, seed, start) -- ``start`` is the number of grants
    that must have happened before the job is launched (None: at once).
    policy(step, pending) -> (job index, verdict) decides; pending is a dict
    job -> (op, path, path2, off, len).
    """

    def __init__(self, jobs, policy, listseed=0):
        self.jobs, self.policy, self.listseed = jobs, policy, listseed
        self.trace = []

    def run(self):
        n = len(self.jobs)
        st = [dict(res=JobResult(), pid=None, alive=True, launched=False) for _ in range(n)]
        for i in range(n):
            r = region(i + 1)
            r.reset()
            r.s.listseed = (self.listseed + i * 7919) & 0xFFFFFFFF if self.listseed else 0

        def launch(i):
            fn, args, seed, _ = self.jobs[i]
            rq_r, rq_w = os.pipe()
            rs_r, rs_w = os.pipe()
            fd_out, fd_err = os.memfd_create("out"), os.memfd_create("err")
            reg = region(i + 1)
            reg.s.req_fd, reg.s.resp_fd = rq_w, rs_r
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rq_r)
                os.close(rs_w)
                for k in range(n):
                    if k != i and st[k].get("rq_r") is not None and st[k]["alive"]:
                        os.close(st[k]["rq_r"])
                        os.close(st[k]["rs_w"])
                _child(fn, args, reg, fd_out, fd_err, seed, True)
            os.close(rq_w)
            os.close(rs_r)
            st[i].update(pid=pid, rq_r=rq_r, rs_w=rs_w, fd_out=fd_out, fd_err=fd_err, launched=True, pending=None)

        def wait_blocked(i):
            """Block until job i asks for a grant or ends."""
            s = st[i]
            buf = b""
            while len(buf) < REQ.size:
                b = os.read(s["rq_r"], REQ.size - len(buf))
                if not b:
                    _, status = os.waitpid(s["pid"], 0)
                    s["alive"] = False
                    os.close(s["rq_r"])
                    os.close(s["rs_w"])
                    _collect(s["res"], status, region(i + 1), s["fd_out"], s["fd_err"])
                    s["pending"] = None
                    self.trace.append((len(self.trace), i, "end", s["res"].status, "", 0))
                    return
                buf += b
            op, _, off, ln, p, p2 = REQ.unpack(buf)
            s["pending"] = (OPS[op], p.split(b"\0")[0].decode(), p2.split(b"\0")[0].decode(), off, ln)

        step = 0
        while True:
            for i in range(n):
                start = self.jobs[i][3]
                if not st[i]["launched"] and (start is None or step >= start):
                    launch(i)
                    wait_blocked(i)
            pend = {i: st[i]["pending"] for i in range(n) if st[i]["launched"] and st[i]["alive"]}
            if not pend:
                late = [i for i in range(n) if not st[i]["launched"]]
                if not late:
                    break
                i = min(late, key=lambda k: (self.jobs[k][3], k))
                launch(i)
                wait_blocked(i)
                continue
            i, v = self.policy(step, pend)
            act, err, arg = v
            self.trace.append((step, i) + st[i]["pending"] + (act,))
            st[i]["pending"] = None
            os.write(st[i]["rs_w"], RESP.pack(ACTIONS[act], getattr(errno, err or "EIO"), arg or 0, 0))
            wait_blocked(i)
            step += 1
            if step > 200000:
                raise HarnessError("cluster run does not end")
        self.steps = step
        return [s["res"] for s in st]


# ---------------------------------------------------------------- helpers
def digest(obj):
    """Hash of an event log; addresses that Python prints in messages are not events."""
    txt = re.sub(r"0x[0-9a-fA-F]{6,}|time = [A-Z][a-z]{2} [A-Z][a-z]{2} [ 0-9:]+|/[a-z/]+/hcsim\.\w+/w\d+", "", repr(obj))
    return hashlib.sha256(txt.encode()).hexdigest()[:16]


def file_bytes(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def tree_hash(root, skip=()):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if any(rel.startswith(s) for s in skip):
                continue
            out[rel] = hashlib.sha256(file_bytes(p)).hexdigest()[:20]
    return out


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path
