"""Cooperative threads: real threads of which exactly one runs at a time; who runs
and where a running thread is preempted is decided by the plan's tape."""
import contextlib
import sys
import threading as _t

from .core import SimHang

RealThread, RealLock, RealSemaphore = _t.Thread, _t.Lock, _t.Semaphore
_RealLockFactory, _RealRLockFactory = _t.Lock, _t.RLock


class _Task:
    __slots__ = ("fn", "sem", "done", "exc", "idx", "waiting", "thread")


class Coop:
    """Runs the given callables as cooperative threads.

    gaps: number of preemption points to let pass before each switch.
    tape: which runnable task continues at each switch.
    """

    def __init__(self, fns, gaps, tape):
        self.tasks = []
        for i, fn in enumerate(fns):
            t = _Task()
            t.fn, t.sem, t.done, t.exc, t.idx, t.waiting = fn, RealSemaphore(0), False, None, i, None
            self.tasks.append(t)
        self.gaps = list(gaps)
        self.tape = tape
        self.main = RealSemaphore(0)
        self.current = None
        self.switches = []
        self.left = self.gaps.pop(0) if self.gaps else None
        self.abort = None
        self.hold = 0  # > 0: what runs is another process; its steps are not this one's

    def _body(self, t):
        t.sem.acquire()
        try:
            if self.abort is None:
                t.fn()
        except BaseException as e:  # noqa: recorded, re-raised by the runner
            t.exc = e
        t.done = True
        self.main.release()

    def run(self, on_thread_start=None):
        for t in self.tasks:
            t.thread = RealThread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        while True:
            runnable = [t for t in self.tasks if not t.done and not (t.waiting and not t.waiting())]
            if not runnable:
                stuck = [t for t in self.tasks if not t.done]
                if not stuck:
                    break
                self.abort = SimHang("deadlock: all threads blocked")
                for t in stuck:
                    t.sem.release()
                    self.main.acquire()
                raise self.abort
            t = runnable[self.tape.choose(len(runnable))]
            self.current = t
            self.switches.append(t.idx)
            t.sem.release()
            self.main.acquire()
            self.current = None
        for t in self.tasks:
            if isinstance(t.exc, SimHang):
                raise t.exc

    # called from within a task's thread, at a preemption point
    def point(self):
        if self.current is None or self.left is None or self.hold:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.gaps.pop(0) if self.gaps else None
        self._switch()

    def _switch(self):
        t = self.current
        self.main.release()
        t.sem.acquire()
        if self.abort is not None:
            raise self.abort

    def block(self, ready):
        """Block the current task until ready() is true."""
        t = self.current
        while not ready():
            t.waiting = ready
            self._switch()
            t.waiting = None


ACTIVE = None  # the running Coop, if any


@contextlib.contextmanager
def held():
    c = ACTIVE
    if c is None:
        yield
        return
    c.hold += 1
    try:
        yield
    finally:
        c.hold -= 1


class SimLock:
    """threading.Lock / RLock as seen by the code under test."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def _me(self):
        return ACTIVE.current if ACTIVE is not None and ACTIVE.current is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is not None and not (self._re and self._owner is me):
            if not blocking or timeout >= 0:
                return False
            if me == "main":
                raise SimHang("deadlock: lock is never released")
            ACTIVE.block(lambda: self._owner is None)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _caller_is_pipit():
    f = sys._getframe(2)
    return str(f.f_globals.get("__name__", "")).split(".")[0] == "pipit"


def install():
    def Lock():
        return SimLock() if _caller_is_pipit() else _RealLockFactory()

    def RLock():
        return SimLock(True) if _caller_is_pipit() else _RealRLockFactory()

    _t.Lock, _t.RLock = Lock, RLock
