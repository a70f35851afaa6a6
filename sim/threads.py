"""Cooperative thread simulation: one thread runs at a time, a seeded scheduler
decides every switch.

``threading`` primitives, ``queue.SimpleQueue``, ``Thread.start/join``,
``time.sleep`` and ``time.monotonic`` are replaced for the duration of a run,
so that code built on them (the real concurrent.futures included) runs
unchanged under the scheduler.  Pre-emption points are the primitives
themselves and, through ``sys.monitoring``, every executed line (optionally
every instruction) of the instrumented modules.

Decisions are sparse: ``switches[step] = tid`` where the schedule departs from
the default (keep running; if the current thread cannot run, lowest runnable
thread id).  The same sparse dict replays the run.
"""
from __future__ import annotations

import _thread
import collections
import gc
import hashlib
import os
import queue
import random
import sys
import threading
import time
import types

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_get_ident = _thread.get_ident
TOOL = 4


def _phil_owned():
    m = sys.modules.get("h5py._objects")
    return m is not None and m.phil._is_owned()


class SimDeadlock(BaseException):
    pass


class Sched:
    current: "Sched | None" = None

    def __init__(self, switches=None, seed=None, p=0.05, weights=None, max_steps=5_000_000, hashseed=0):
        self.hashseed = hashseed
        self.replay = seed is None
        self.switches = dict(switches or {})
        self.rng = random.Random(seed) if seed is not None else None
        self.p = p
        self.weights = weights or {}
        self.step = 0
        self.taken = {}
        self.now = 0.0
        self.threads = {}      # ident -> tid
        self.sem = {}          # tid -> real lock used as binary semaphore
        self.state = {}        # tid -> 'run' | ('blocked', obj) | 'done'
        self.deadline = {}
        self.cur = None
        self.order = []        # order in which threads finished / events of note
        self.hash = hashlib.sha256()
        self.nswitch = 0
        self.dead = False
        self.max_steps = max_steps
        self.next_tid = 0
        self.lines = 0
        self.memfired = False

    # -- registration
    def adopt(self):
        tid = self.next_tid
        self.next_tid += 1
        self.threads[_real_get_ident()] = tid
        sem = _real_allocate()
        sem.acquire()
        self.sem[tid] = sem
        self.state[tid] = "run"
        self.cur = tid
        return tid

    def managed(self):
        return _real_get_ident() in self.threads

    def me(self):
        return self.threads[_real_get_ident()]

    # -- core
    def _runnable(self):
        return [t for t, s in self.state.items() if s == "run"]

    def _pick(self, runnable, forced):
        s = self.step
        self.step += 1
        if self.step > self.max_steps:
            self._deadlock("no progress within the step bound")
        default = self.cur if not forced else min(runnable)
        if self.rng is None:
            t = self.switches.get(s)
            return t if t is not None and t in runnable else default
        if not forced and (len(runnable) == 1 or self.rng.random() >= self.p):
            return default
        w = [self.weights.get(t % 16, 1.0) for t in runnable]
        t = self.rng.choices(runnable, w)[0]
        if t != default:
            self.taken[s] = t
        return t

    def _goto(self, t):
        me = self.me()
        if t == me:
            return
        self.nswitch += 1
        self.hash.update(b"%d>%d;" % (self.step, t))
        self.cur = t
        self.sem[t].release()
        self.sem[me].acquire()
        if self.dead:
            raise SimDeadlock()

    def point(self):
        """A voluntary pre-emption point (none while the thread holds HDF5's real lock)."""
        if _phil_owned():
            return
        r = self._runnable()
        self._goto(self._pick(r, False))

    def block(self, obj, timeout=None):
        """Park the current thread until wake(obj) or the virtual timeout."""
        me = self.me()
        self.state[me] = ("blocked", obj)
        if timeout is not None:
            self.deadline[me] = self.now + timeout
        self._leave()
        self.deadline.pop(me, None)

    def _leave(self):
        me = self.me()
        r = self._runnable()
        while not r:
            timed = [(d, t) for t, d in self.deadline.items() if self.state[t] != "run" and self.state[t] != "done"]
            if not timed:
                self._deadlock("all threads are blocked: " + repr({t: str(s) for t, s in self.state.items() if s != "done"}))
            d, t = min(timed)
            self.now = max(self.now, d)
            self.state[t] = "run"
            r = self._runnable()
        t = self._pick(r, True)
        self._goto(t) if t != me else None

    def _deadlock(self, why):
        import traceback
        inv = {i: t for i, t in self.threads.items()}
        for ident, fr in sys._current_frames().items():
            if ident in inv:
                stack = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack(fr)]
                why += f"\n thread {inv[ident]}: " + " > ".join([x for x in stack if not x.startswith("threads.py")][-12:])
        self.dead = True
        self.why = why
        raise SimDeadlock(why)

    def wake(self, obj):
        for t, s in self.state.items():
            if isinstance(s, tuple) and s[1] is obj:
                self.state[t] = "run"

    # -- threads
    def spawn(self, func, args, kwargs):
        tid = self.next_tid
        self.next_tid += 1
        sem = _real_allocate()
        sem.acquire()
        self.sem[tid] = sem
        self.state[tid] = "run"

        def body():
            self.threads[_real_get_ident()] = tid
            sem.acquire()
            try:
                if not self.dead:
                    func(*args, **kwargs)
            except SimDeadlock:
                pass
            finally:
                self.finish(tid)

        ident = _real_start(body, ())
        self.threads[ident] = tid
        self.point()
        return ident

    def finish(self, tid):
        self.state[tid] = "done"
        self.order.append(tid)
        self.wake(("done", tid))
        for t, s in self.state.items():
            if isinstance(s, tuple) and s[1] == ("done", tid):
                self.state[t] = "run"
        if self.dead:
            for t in self.sem:
                if self.state[t] != "done":
                    try:
                        self.sem[t].release()
                    except RuntimeError:
                        pass
            return
        ident = _real_get_ident()
        r = self._runnable()
        if not r:
            timed = [(d, t) for t, d in self.deadline.items() if self.state[t] not in ("run", "done")]
            if not timed:
                if all(s == "done" for s in self.state.values()):
                    return
                self.dead = True
                self.why = "all threads are blocked after a thread ended"
                for t in self.sem:
                    if self.state[t] != "done":
                        self.sem[t].release()
                return
            d, t = min(timed)
            self.now = max(self.now, d)
            self.state[t] = "run"
            r = self._runnable()
        t = self._pick(r, True)
        self.threads.pop(ident, None)
        self.nswitch += 1
        self.hash.update(b"%d!%d;" % (self.step, t))
        self.cur = t
        self.sem[t].release()


class SimLock:
    """Lock that parks in the scheduler for managed threads."""

    def __init__(self):
        self._locked = False
        self._real = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        if s is None or not s.managed():
            return self._real.acquire(blocking, timeout)
        s.point()
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not blocking:
                return False
            if end is not None and s.now >= end:
                return False
            s.block(self, None if end is None else end - s.now)
        self._locked = True
        return True

    def release(self):
        s = Sched.current
        if s is None or not s.managed():
            if self._locked:
                self._locked = False
                return
            return self._real.release()
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s.wake(self)

    def locked(self):
        return self._locked or self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        if self._owner == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner, self._count = me, 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _real_get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _real_get_ident()


class SimSimpleQueue:
    def __init__(self):
        self._q = collections.deque()
        self._c = threading.Condition(SimLock())

    def put(self, item, block=True, timeout=None):
        with self._c:
            self._q.append(item)
            self._c.notify()

    put_nowait = put

    def get(self, block=True, timeout=None):
        with self._c:
            if not block:
                if not self._q:
                    raise queue.Empty
            else:
                if not self._c.wait_for(lambda: self._q, timeout):
                    raise queue.Empty
            return self._q.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


def _codes(modules):
    seen = set()
    todo = []
    for m in modules:
        for v in list(vars(m).values()):
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                todo.append(v.__code__)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for w in list(vars(v).values()):
                    f = w.__func__ if isinstance(w, (classmethod, staticmethod)) else w
                    if isinstance(f, property):
                        for g in (f.fget, f.fset):
                            if g is not None and hasattr(g, "__code__"):
                                todo.append(g.__code__)
                    elif isinstance(f, types.FunctionType):
                        todo.append(f.__code__)
                    elif hasattr(f, "__wrapped__") and hasattr(f.__wrapped__, "__code__"):
                        todo.append(f.__wrapped__.__code__)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


class Simulation:
    """Context in which threads are simulated."""

    def __init__(self, sched, line_modules=(), instr_modules=(), memfault=None):
        self.s = sched
        self.memfault = memfault
        self.line_modules, self.instr_modules = line_modules, instr_modules

    def __enter__(self):
        s = self.s
        import concurrent.futures.thread as cft
        self.saved = [(threading, n, getattr(threading, n)) for n in
                      ("Lock", "RLock", "_allocate_lock", "_start_new_thread", "_time")]
        self.saved += [(queue, "SimpleQueue", queue.SimpleQueue), (time, "sleep", time.sleep),
                       (time, "monotonic", time.monotonic), (cft, "_global_shutdown_lock", cft._global_shutdown_lock),
                       (threading.Thread, "join", threading.Thread.join),
                       (threading.Thread, "is_alive", threading.Thread.is_alive)]
        # sets of futures iterate in address order in reality; here in an order the seed decides
        import concurrent.futures._base as cfb
        ids = {}
        hrng = random.Random(s.hashseed)

        def fid(f):
            v = getattr(f, "_sim_id", None)
            if v is None:
                v = f._sim_id = hrng.getrandbits(40)
            return v
        self.saved += [(cfb.Future, "__hash__", cfb.Future.__hash__)]
        cfb.Future.__hash__ = fid
        main = threading.main_thread()
        self.saved += [(threading.Thread, "__hash__", threading.Thread.__hash__)]
        threading.Thread.__hash__ = lambda t: object.__hash__(t) if t is main else fid(t)
        cfb.id = fid
        gc.disable()
        Sched.current = s
        s.adopt()
        real_join = threading.Thread.join

        def start_new_thread(func, args=(), kwargs={}):
            th = getattr(func, "__self__", None)
            if isinstance(th, threading.Thread):
                th._sim_tid = s.next_tid        # thread idents are reused; this is not
            return s.spawn(func, args, kwargs)

        def join(th, timeout=None):
            tid = getattr(th, "_sim_tid", None)
            if not s.managed() or tid is None:
                return real_join(th, timeout)
            if tid is not None:
                end = None if timeout is None else s.now + timeout
                while s.state.get(tid) != "done":
                    if end is not None and s.now >= end:
                        return
                    s.block(("done", tid), None if end is None else end - s.now)
            real_join(th)

        real_alive = threading.Thread.is_alive

        def is_alive(th):
            tid = getattr(th, "_sim_tid", None)
            return real_alive(th) if tid is None else s.state.get(tid) != "done"

        def sleep(sec):
            if s.managed():
                s.block(("sleep", s.step), max(0, sec))
            # unmanaged callers do not wait

        threading.Lock = SimLock
        threading.RLock = SimRLock
        threading._allocate_lock = SimLock
        threading._start_new_thread = start_new_thread
        threading._time = lambda: s.now
        threading.Thread.join = join
        threading.Thread.is_alive = is_alive
        queue.SimpleQueue = SimSimpleQueue
        time.sleep = sleep
        time.monotonic = lambda: s.now
        cft._global_shutdown_lock = SimLock()

        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        E = mon.events

        memfault = self.memfault

        def on_line(code, line):
            if s.managed():
                s.lines += 1
                if memfault is not None and not s.memfired and s.lines >= memfault and s.me() != 0:
                    s.memfired = True
                    raise MemoryError("injected allocation failure")
                s.point()

        def on_instr(code, off):
            if s.managed():
                s.point()

        # locks that instrumented code made at import time must park in the scheduler too
        for name, m in list(sys.modules.items()):
            if name.startswith("hera_cal") and m is not None:
                for holder in [m] + [v for v in vars(m).values() if isinstance(v, type) and v.__module__ == name]:
                    for n, v in list(vars(holder).items()):
                        new = SimLock() if type(v) is _thread.LockType else SimRLock() if type(v) is _thread.RLock else None
                        if new is not None:
                            self.saved.append((holder, n, v))
                            setattr(holder, n, new)

        mon.register_callback(TOOL, E.LINE, on_line)
        mon.register_callback(TOOL, E.INSTRUCTION, on_instr)
        ins = _codes(self.instr_modules)
        for c in _codes(self.line_modules):
            mon.set_local_events(TOOL, c, E.LINE)
        for c in ins:
            mon.set_local_events(TOOL, c, E.INSTRUCTION)
        return s

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.free_tool_id(TOOL)
        for o, n, v in self.saved:
            setattr(o, n, v)
        import concurrent.futures._base as cfb
        del cfb.id
        gc.enable()
        Sched.current = None
        return False
