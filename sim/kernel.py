"""The simulator's kernel: virtual clock, fault injection, baton scheduler over real threads.

One actor runs at a time. A switch point is a file system event, a lock operation or (when line stepping is on) a
source line of the code under test. The schedule is data: a list of preemptions {a, op, n, to} meaning "when actor a is
in the operation with id op and reaches its n-th switch point, hand over to actor `to`". Without a preemption the
running actor goes on; when it ends, the lowest numbered runnable actor goes on. So one trace is one execution.
"""
import errno
import hashlib
import os
import sys
import threading

from . import fs as simfs
from .fs import SimCrash, TornWrite, oserr

_RealSemaphore = threading.Semaphore
_RealThread = threading.Thread

W = {"write"}
C = {"creat", "openw"}
O = {"open"}

FAULTS = {
    # kind: (events it can hit, how)
    "enospc": (W | {"creat", "mkdir"}, errno.ENOSPC),
    "torn": (W, errno.ENOSPC),
    "eio_w": (W | {"close", "fsync"}, errno.EIO),
    "eio_r": ({"read"}, errno.EIO),
    "eacces": (C | O | {"unlink", "rename", "listdir"}, errno.EACCES),
    "emfile": (C | O, errno.EMFILE),
    "crash": (None, None),
}


class NoProgress(BaseException):
    pass


class Deadlock(BaseException):
    pass


class Actor:
    def __init__(self, aid):
        self.aid = aid
        self.dead = False
        self.done = False
        self.op = None
        self.n = 0          # switch points in the current operation
        self.fault = None
        self.fault_n = 0    # eligible events seen
        self.fired = 0
        self.steps = 0      # in the current operation
        self.sem = _RealSemaphore(0)
        self.blocked = None
        self.error = None


class Kernel:
    def __init__(self, sched=(), short=None, budget=1500000, dir_seed=0, line_step=False):
        self.fs = simfs.SimFS(self)
        self.clock = 1_600_000_000.0
        self.steps = 0
        self.budget = budget
        self.short = short or 0      # >0: every transfer moves at most this many bytes
        self.dir_seed = dir_seed
        self.actors = [Actor(0)]
        self.cur = 0
        self.multi = False
        self.sched = {}
        for p in sched:
            self.sched.setdefault((p["a"], p["op"], p["n"]), p["to"])
        self.faults_fired = {}
        self.faults_armed = {}
        self.switches = 0
        self.h = hashlib.blake2b(digest_size=12)
        self.line_step = line_step
        self.events = {}
        self.t_spent = 0.0
        self.log = None
        self._over = None
        self._main = _RealSemaphore(0)

    # -- clock -------------------------------------------------------------------
    def now(self):
        return self.clock

    def time(self):
        self.clock += 1e-6
        self.t_spent += 1e-6
        return self.clock

    def sleep(self, s):
        self.clock += s
        self.t_spent += s
        self.point("sleep", "")

    # -- actors ------------------------------------------------------------------
    def actor(self):
        return self.cur

    @property
    def me(self):
        return self.actors[self.cur]

    def check_alive(self):
        if self.me.dead:
            raise SimCrash()

    def begin_op(self, opid, fault=None):
        a = self.me
        a.op, a.n, a.fault, a.fault_n, a.fired, a.steps = opid, 0, fault, 0, 0, 0
        if fault:
            self.faults_armed[fault["kind"]] = self.faults_armed.get(fault["kind"], 0) + 1

    def end_op(self):
        a = self.me
        f = a.fired
        a.fault = None
        return f

    def _step(self):
        self.steps += 1
        a = self.me
        a.steps += 1
        if a.steps > self.budget:
            raise NoProgress(f"operation {a.op} not completed within {self.budget} steps")

    def point(self, what, path):
        """A switch point."""
        a = self.me
        if a.dead:
            raise SimCrash()
        self._step()
        n = a.n
        a.n += 1
        if self.multi:
            to = self.sched.get((a.aid, a.op, n))
            if to is not None and to != self.cur:
                self.switch_to(to)

    def event(self, op, path, size=0):
        self.clock += 5e-5
        self.t_spent += 5e-5
        self.point(op, path)
        a = self.me
        self.events[op] = self.events.get(op, 0) + 1
        self.h.update(f"{a.aid}{op}{os.path.basename(str(path))}{size}|".encode())
        if self.log is not None:
            self.log.append((a.aid, a.op, op, str(path), size))
        f = a.fault
        if f is not None:
            kinds, code = FAULTS[f["kind"]]
            if kinds is None or op in kinds:
                i = a.fault_n
                a.fault_n += 1
                if i == f["at"] or (f.get("sticky") and i > f["at"]):
                    a.fired += 1
                    self.faults_fired[f["kind"]] = self.faults_fired.get(f["kind"], 0) + 1
                    if f["kind"] == "crash":
                        self.kill(a.aid)
                        raise SimCrash()
                    if f["kind"] == "torn":
                        raise TornWrite(int(size * f.get("frac", 0.5)), oserr(code, path))
                    raise oserr(code, path)
        if self.short and op in ("read", "write"):
            return self.short
        return None

    def kill(self, aid):
        self.actors[aid].dead = True
        self.fs.kill(aid)

    def dir_order(self, names):
        if not self.dir_seed:
            return names
        import random
        names = list(names)
        random.Random(self.dir_seed * 7919 + len(names)).shuffle(names)
        return names

    # -- scheduling --------------------------------------------------------------
    def runnable(self):
        return [x.aid for x in self.actors if not x.done and x.blocked is None]

    def switch_to(self, to):
        if to >= len(self.actors) or self.actors[to].done or self.actors[to].blocked is not None:
            others = [x for x in self.runnable() if x != self.cur]
            if not others:
                return
            to = others[to % len(others)]
        if to == self.cur:
            return
        me = self.me
        self.switches += 1
        self.h.update(f">{to}@{self.steps}".encode())
        self.cur = to
        self.actors[to].sem.release()
        me.sem.acquire()
        if self._over is not None:
            raise SimCrash()

    def block_on(self, lock):
        me = self.me
        me.blocked = lock
        r = self.runnable()
        if not r:
            raise Deadlock("every actor waits for a lock")
        self.cur = r[0]
        self.actors[r[0]].sem.release()
        me.sem.acquire()
        if self._over is not None:
            raise SimCrash()

    def run_actors(self, bodies, enter=None):
        """Run one function per actor to completion under the schedule. Returns a list of escaped exceptions."""
        self.actors = [Actor(i) for i in range(len(bodies))]
        self.multi = True
        self.cur = 0
        threads = []

        def wrap(a, body):
            a.sem.acquire()
            try:
                if self._over is None:
                    simfs.Mount.guest.on = True
                    if self.line_step:
                        sys.settrace(self._tracer)
                    try:
                        body()
                    finally:
                        sys.settrace(None)
            except SimCrash:
                pass
            except BaseException as e:  # NoProgress, Deadlock, harness errors
                a.error = e
                if isinstance(e, (NoProgress, Deadlock)):
                    self._over = e
            finally:
                simfs.Mount.guest.on = False
                a.done = True
                r = self.runnable()
                if self._over is not None:
                    r = [x.aid for x in self.actors if not x.done]
                if r:
                    self.cur = r[0]
                    self.actors[r[0]].sem.release()
                elif all(x.done for x in self.actors):
                    self._main.release()
                else:
                    self._over = Deadlock("remaining actors wait for locks that nobody holds")
                    b = [x for x in self.actors if not x.done][0]
                    self.cur = b.aid
                    b.sem.release()

        for a, body in zip(self.actors, bodies):
            t = _RealThread(target=wrap, args=(a, body), daemon=True)
            t.start()
            threads.append(t)
        self.actors[0].sem.release()
        self._main.acquire()
        for t in threads:
            t.join()
        self.multi = False
        over = self._over
        errs = [a.error for a in self.actors]
        self.actors = [Actor(0)]
        self.cur = 0
        self._over = None
        return over, errs

    def _tracer(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(TRACE_PREFIX):
            return self._local
        return None

    def _local(self, frame, ev, arg):
        if ev == "line":
            self.point("line", "")
        return self._local

    def digest(self):
        return self.h.hexdigest()


TRACE_PREFIX = os.path.join(os.environ.get("RULESKIT_REPO", "/repo"), "ruleskit", "")


class CoopLock:
    """Stand-in for threading.Lock / RLock inside the code under test, so that a lock it takes is a switch point."""

    def __init__(self, get_kernel, reentrant=False):
        self._k, self._re = get_kernel, reentrant
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        k = self._k()
        me = k.cur
        if k.multi:
            k.point("lock", "")
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or timeout == 0:
                return False
            if not k.multi:
                raise Deadlock("lock never released")
            k.block_on(self)
        self._owner, self._count = me, self._count + 1
        return True

    def release(self):
        k = self._k()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            for a in k.actors:
                if a.blocked is self:
                    a.blocked = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
