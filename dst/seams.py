"""Seams between pipit and its environment: worker pools, files, directory listings,
clocks, core count, locks, and execution points (sys.monitoring) of pipit's code.

install() patches the interpreter once, before pipit is imported.  While no run is
active (SIM is None) every seam passes through to the real thing.
"""
import builtins
import collections
import copy
import errno
import fcntl
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import pickle
import random
import sys
import time
import types

from . import core, sched
from .core import REPO, SimHang, Tape

PKG = os.path.join(REPO, "pipit") + os.sep
SIM = None

real_open = builtins.open
real_listdir, real_scandir = os.listdir, os.scandir
real_time, real_monotonic, real_perf = time.time, time.monotonic, time.perf_counter
real_sleep = time.sleep
real_cpu_count = os.cpu_count

TOOL = 4
mon = sys.monitoring


class WorkerKilled(BaseException):
    pass


class Sim:
    """All simulated environment state of one run."""

    def __init__(self, root, tape=(), cores=4, budget=20_000_000, now=1_700_000_000.0):
        self.root = root
        self.tape = Tape(tape)
        self.cores = cores
        self.now = now
        self.lines = 0
        self.budget = budget
        self.fired = collections.Counter()
        self.trail = []  # schedule decisions, for replay comparison and interleaving count
        self.pools = []
        self.opens = 0
        self.open_counts = collections.Counter()
        self.read_counts = collections.Counter()
        self.shrunk = {}
        self.track_files = False
        self.worker_files = set()  # descriptors that are open in workers
        self.faults = []  # disk faults, see disk_fault()
        self.mutations = []  # [{"when": n, "fn": callable}] at n-th disk/pool event
        self.events = 0
        self.worker_faults = []  # [{"task": k, "do": "kill"|"error"|"kill_late"}]
        self.tasks_started = 0
        self.fork_faults = 0
        self.otf2_fault = None  # {"n": k}
        self.otf2_events = 0
        self.write_budget = None
        self.line_hook = None
        self.call_hook = None
        self.eof_reads = 0
        self.suspended = 0

    # -- environment events: the instants at which disk state may change -----------
    def event(self, what):
        self.events += 1
        self.trail.append(what)
        for m in self.mutations:
            if m["when"] == self.events and not m.get("done"):
                m["done"] = True
                m["fn"]()

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return isinstance(p, str) and os.path.abspath(p).startswith(self.root)

    def disk_fault(self, op, path, n):
        base = os.path.basename(path)
        for f in self.faults:
            if f["op"] == op and (f.get("path") in (None, base)) and f["n"] <= n and not f.get("off"):
                if f.get("once", False) and f.get("hits", 0):
                    continue
                f["hits"] = f.get("hits", 0) + 1
                return f
        return None


# ------------------------------------------------------------------------- files
class FaultRaw(io.FileIO):
    def __init__(self, path, mode, **kw):
        super().__init__(path, mode, **kw)
        self._p = path

    def readinto(self, b):
        sim = SIM
        if sim is None or sim.suspended:
            return super().readinto(b)
        base = os.path.basename(self._p)
        sim.read_counts[base] += 1
        n = sim.read_counts[base]
        f = sim.disk_fault("read", self._p, n)
        if f is not None:
            sim.fired["disk_read_" + f["err"]] += 1
            if f["err"] == "SHORT" and len(b) > 1:
                k = max(1, min(len(b), int(f.get("len", 1))))
                mv = memoryview(b)[:k]
                return super().readinto(mv)
            if f["err"] == "EOF":
                if "len" not in f:
                    return 0  # the file has become shorter
                # ... by this much
                sim.shrunk[self._p] = max(0, os.fstat(self.fileno()).st_size - int(f["len"]))
            elif f["err"] != "SHORT":
                raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), self._p)
        if self._p in sim.shrunk:
            b = memoryview(b)[: max(0, sim.shrunk[self._p] - self.tell())]
        r = super().readinto(b)
        if r == 0:
            sim.eof_reads += 1
        return r

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n]) if n is not None else None

    def write(self, b):
        sim = SIM
        if sim is None or sim.suspended:
            return super().write(b)
        base = os.path.basename(self._p)
        sim.read_counts["w:" + base] += 1
        f = sim.disk_fault("write", self._p, sim.read_counts["w:" + base])
        if f is not None and f["err"] not in ("SHORT", "ENOSPC"):
            sim.fired["disk_write_" + f["err"]] += 1
            raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), self._p)
        mv = memoryview(b).cast("B")
        if f is not None and f["err"] == "SHORT" and len(mv) > 1:
            sim.fired["disk_write_SHORT"] += 1
            mv = mv[: max(1, int(f.get("len", 1)))]
        if sim.write_budget is not None:
            if len(mv) > sim.write_budget:
                mv = mv[: max(0, sim.write_budget)]
                if len(mv) == 0:
                    sim.fired["disk_write_ENOSPC"] += 1
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._p)
            sim.write_budget -= len(mv)
        return super().write(mv)

    def close(self):
        was = self.closed
        super().close()
        sim = SIM
        if sim is not None and not sim.suspended and not was:
            f = sim.disk_fault("close", self._p, 1)
            if f is not None:
                sim.fired["disk_close_" + f["err"]] += 1
                raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), self._p)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = SIM
    if sim is None or sim.suspended:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int) and not isinstance(file, bool) and FDS.get(file, (None,))[0] is sim:
        # (opened by os.open, which has already met its faults)
        raw = FaultRaw(file, mode.replace("b", "").replace("t", ""), closefd=closefd)
        raw._p = FDS[file][1]
        if closefd:
            FDS.pop(file)
        return _buffered(raw, mode, buffering, encoding, errors, newline)
    if isinstance(file, int) or opener is not None or not sim.inside(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fsdecode(os.fspath(file))  # (not normalised: x/.. depends on what x links to)
    base = os.path.basename(path)
    sim.opens += 1
    sim.open_counts[base] += 1
    sim.event("open:" + base)
    f = sim.disk_fault("open", path, sim.open_counts[base])
    if f is not None:
        sim.fired["disk_open_" + f["err"]] += 1
        raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), path)
    return _buffered(FaultRaw(path, mode.replace("b", "").replace("t", "")), mode, buffering, encoding, errors, newline)


def _buffered(raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


# the calls underneath: a file opened with os.open is on the same disk
real_os_open, real_os_write, real_os_read, real_os_close = os.open, os.write, os.read, os.close
FDS = {}


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = SIM
    if sim is None or sim.suspended or dir_fd is not None or not sim.inside(path) or os.path.isdir(path):
        return real_os_open(path, flags, mode, dir_fd=dir_fd)
    p = os.fsdecode(os.fspath(path))
    base = os.path.basename(p)
    sim.opens += 1
    sim.open_counts[base] += 1
    sim.event("open:" + base)
    f = sim.disk_fault("open", p, sim.open_counts[base])
    if f is not None:
        sim.fired["disk_open_" + f["err"]] += 1
        raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), p)
    fd = real_os_open(path, flags, mode)
    FDS[fd] = (sim, p)
    return fd


def _raw(fd):
    sim = SIM
    if sim is None or sim.suspended or FDS.get(fd, (None,))[0] is not sim:
        return None
    raw = FaultRaw(fd, "rb+" if (fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_ACCMODE) == os.O_RDWR else "wb" if fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_WRONLY else "rb", closefd=False)
    raw._p = FDS[fd][1]
    return raw


def sim_os_write(fd, data):
    raw = _raw(fd)
    return real_os_write(fd, data) if raw is None else raw.write(data)


def sim_os_read(fd, n):
    raw = _raw(fd)
    return real_os_read(fd, n) if raw is None else raw.read(n)


def sim_os_close(fd):
    sim, p = FDS.pop(fd, (None, None))
    real_os_close(fd)
    if sim is not None and sim is SIM and not sim.suspended:
        f = sim.disk_fault("close", p, 1)
        if f is not None:
            sim.fired["disk_close_" + f["err"]] += 1
            raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), p)


def _shuffle(seq, sim):
    seq = sorted(seq, key=lambda e: getattr(e, "name", e))
    for i in range(len(seq) - 1, 0, -1):
        j = sim.tape.choose(i + 1)
        seq[i], seq[j] = seq[j], seq[i]
    return seq


def sim_listdir(path="."):
    sim = SIM
    if sim is None or sim.suspended or isinstance(path, int) or not sim.inside(path if path is not None else "."):
        return real_listdir(path)
    sim.event("listdir")
    f = sim.disk_fault("list", str(path), 1)
    if f is not None:
        sim.fired["disk_list_" + f["err"]] += 1
        raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), path)
    sim.fired["listing_order"] += 1
    return _shuffle(real_listdir(path), sim)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    sim = SIM
    if sim is None or sim.suspended or isinstance(path, int) or not sim.inside(path if path is not None else "."):
        return real_scandir(path)
    sim.event("scandir")
    sim.fired["listing_order"] += 1
    with real_scandir(path) as it:
        return _Scan(_shuffle(list(it), sim))


# ------------------------------------------------------------------ worker isolation
_PLAIN = (int, float, complex, str, bytes, bool, type(None), list, dict, set, frozenset, tuple, bytearray,
          collections.deque, collections.Counter, collections.OrderedDict, collections.defaultdict)


def _mutable_globals():
    out = []
    seen = set()
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "pipit" or name.startswith("pipit.")):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, _PLAIN):
                out.append((m, k, v))
            elif isinstance(v, type) and v.__module__.startswith("pipit") and id(v) not in seen:
                seen.add(id(v))
                for k2, v2 in list(vars(v).items()):
                    if k2.startswith("__") and k2.endswith("__") and not isinstance(v2, types.FunctionType):
                        continue
                    if isinstance(v2, (staticmethod, classmethod)):
                        v2 = v2.__func__
                    if isinstance(v2, types.FunctionType):
                        if v2.__defaults__:
                            out.append((v2, "__defaults__", v2.__defaults__))
                    elif isinstance(v2, _PLAIN):
                        out.append((v, k2, v2))
            elif isinstance(v, types.FunctionType) and v.__module__.startswith("pipit"):
                if v.__defaults__:
                    out.append((v, "__defaults__", v.__defaults__))
    return out


def snapshot_globals():
    slots = _mutable_globals()
    vals = [v for _, _, v in slots]
    try:
        vals = copy.deepcopy(vals)
    except Exception:
        pass
    return [(o, k, v) for (o, k, _), v in zip(slots, vals)]


def restore_globals(snap):
    keep = {(id(o), k) for o, k, _ in snap}
    for o, k, _ in _mutable_globals():
        if (id(o), k) not in keep and isinstance(o, types.ModuleType):
            o.__dict__.pop(k, None)
    for o, k, v in snap:
        try:
            setattr(o, k, v)
        except Exception:
            pass


class _LiveGlobals:
    """Fork semantics: a worker starts with a copy of the parent's globals and
    nothing it does to them is seen by anybody else."""

    def __init__(self):
        self.state = snapshot_globals()

    def __enter__(self):
        self.saved = [(o, k, v) for o, k, v in _mutable_globals()]
        restore_globals(self.state)

    def __exit__(self, *a):
        self.state = [(o, k, v) for o, k, v in _mutable_globals()]
        restore_globals(self.saved)


# ---------------------------------------------------------------------------- pools
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError  # noqa: E402
import concurrent.futures as cf  # noqa: E402
import concurrent.futures.process as cfp  # noqa: E402
from concurrent.futures.process import BrokenProcessPool  # noqa: E402
import multiprocessing  # noqa: E402
import multiprocessing.context  # noqa: E402
import multiprocessing.pool  # noqa: E402

REAL = {
    "Pool": multiprocessing.pool.Pool,
    "ThreadPool": multiprocessing.pool.ThreadPool,
    "PPE": cf.ProcessPoolExecutor,
    "TPE": cf.ThreadPoolExecutor,
    "mpPool": multiprocessing.Pool,
}


class _Task:
    __slots__ = ("no", "payload", "deliver", "state", "worker", "cancelled")

    def __init__(self, no, payload, deliver):
        self.no, self.payload, self.deliver = no, payload, deliver
        self.state = "queued"
        self.worker = None
        self.cancelled = False


def _default_procs():
    return os.cpu_count() or 1


class _Engine:
    """Queue, workers and the schedule of one pool of processes or threads."""

    def __init__(self, n, threads, respawn, initializer=None, initargs=()):
        sim = SIM
        self.sim = sim
        self.threads = threads
        self.respawn = respawn
        self.n = n
        self.queue = collections.deque()
        self.workers = {}
        self.next_wid = 0
        self.broken = None
        self.stopped = False
        self.no = 0
        self.initializer, self.initargs = initializer, initargs
        self.started = False

    def start(self):
        if self.started:
            return
        self.started = True
        sim = self.sim
        if sim.fork_faults > 0 and not self.threads:
            sim.fork_faults -= 1
            sim.fired["fork_fail"] += 1
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        for _ in range(self.n):
            self._spawn()

    def _spawn(self):
        w = {"id": self.next_wid, "task": None, "globals": None if self.threads else _LiveGlobals(), "init": False}
        self.next_wid += 1
        self.workers[w["id"]] = w
        return w

    def submit(self, payload, deliver):
        t = _Task(self.no, payload, deliver)
        self.no += 1
        self.queue.append(t)
        return t

    def step(self):
        """One scheduling decision; False if nothing can happen."""
        if self.broken or self.stopped:
            return False
        while self.queue and self.queue[0].cancelled:
            self.queue.popleft()
        acts = []
        idle = [w for w in self.workers.values() if w["task"] is None]
        busy = [w for w in self.workers.values() if w["task"] is not None]
        if self.queue and idle:
            acts += [("fetch", w) for w in idle]
        acts += [("run", w) for w in busy]
        if not acts:
            return False
        what, w = acts[self.sim.tape.choose(len(acts))]
        if what == "fetch":
            t = self.queue.popleft()
            w["task"] = t
            t.state, t.worker = "running", w["id"]
            self.sim.event("fetch:%d:%d" % (w["id"], t.no))
            return True
        self.sim.event("run:%d:%d" % (w["id"], w["task"].no))
        self._run(w)
        return True

    def _run(self, w):
        t = w["task"]
        sim = self.sim
        k = sim.tasks_started
        sim.tasks_started += 1
        fault = None
        for f in sim.worker_faults:
            if f["task"] == k:
                fault = f["do"]
        if self.threads and fault in ("kill", "kill_late"):
            fault = "error"
        if fault == "kill":
            sim.fired["worker_kill"] += 1
            return self._die(w)
        try:
            if self.threads:
                res = self._exec(t, fault)
            else:
                from . import session

                before = set(session.open_files(sim.root)) if sim.track_files else ()
                with w["globals"], session.own(), sched.held():
                    if self.initializer and not w["init"]:
                        w["init"] = True
                        self.initializer(*self.initargs)
                    res = self._exec(t, fault)
                if sim.track_files:
                    sim.worker_files |= set(session.open_files(sim.root)) - before
        except SimHang:
            raise
        except (WorkerKilled, KeyboardInterrupt, SystemExit, GeneratorExit):
            return self._die(w)
        if fault == "kill_late":
            sim.fired["worker_kill"] += 1
            return self._die(w)
        w["task"] = None
        t.state = "done"
        t.deliver(*res)

    def _exec(self, t, fault):
        try:
            fn = t.payload if self.threads else pickle.loads(t.payload)
            if fault == "error":
                self.sim.fired["worker_error"] += 1
                raise MemoryError("simulated: worker out of memory")
            if fault == "oserror":
                self.sim.fired["worker_error"] += 1
                raise OSError(errno.EIO, "simulated worker I/O error")
            val = fn[0](*fn[1], **fn[2])
            ok = True
        except Exception as e:
            ok, val = False, e
            if not self.threads:
                val = ExceptionWithTraceback(e, e.__traceback__)
        if self.threads:
            return ok, val
        try:
            return ok, pickle.dumps(val)
        except Exception as e:
            return False, pickle.dumps(MaybeEncodingError(e, val))

    def _die(self, w):
        del self.workers[w["id"]]
        w["task"].state = "lost"
        if self.respawn:
            self._spawn()
            return
        self.broken = "A process in the process pool was terminated abruptly"
        self.on_broken()

    def on_broken(self):
        pass

    def drive(self, cond, what="result"):
        while not cond():
            if not self.step():
                raise SimHang("waiting for a %s that can never arrive (worker gone)" % what)


class _AsyncResult:
    def __init__(self, pool, n_chunks, callback=None, error_callback=None, single=False):
        self.pool, self.left, self.ok, self.val = pool, n_chunks, True, [None] * n_chunks
        self.single = single
        self.callback, self.error_callback = callback, error_callback
        if n_chunks == 0:
            self._done()

    def _set(self, i, ok, val):
        self.left -= 1
        if ok:
            self.val[i] = val
        elif self.ok:
            self.ok, self.exc = False, val
        if self.left == 0:
            self._done()

    def _done(self):
        if self.ok:
            v = self.val[0] if self.single else [x for c in self.val for x in c]
            self.final = v
            if self.callback:
                self.callback(v)
        elif self.error_callback:
            self.error_callback(self.exc)

    def ready(self):
        return self.left <= 0

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return self.ok

    def wait(self, timeout=None):
        if timeout is None:
            self.pool._eng.drive(self.ready)
        else:
            while not self.ready() and self.pool._eng.step():
                pass
            if not self.ready():
                SIM.now += timeout

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self.ok:
            return self.final
        raise self.exc


def _mapper(fn, chunk):
    return [fn(x) for x in chunk]


def _star(fn, chunk):
    return [fn(*x) for x in chunk]


class SimPool:
    """multiprocessing.Pool under the simulator."""

    _threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = _default_procs()
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._processes = processes
        self._state = "RUN"
        self._eng = _Engine(processes, self._threads, True, initializer, initargs)
        self._eng.start()
        self._handler_dead = self._used = False
        SIM.pools.append(self)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _payload(self, fn, args, kw):
        if self._threads:
            return (fn, args, kw)
        return pickle.dumps((fn, args, kw))

    def _submit(self, res, i, fn, args, kw=None):
        def deliver(ok, data):
            if self._handler_dead:
                return
            if not self._threads:
                try:
                    data = pickle.loads(data)
                except BaseException:
                    # the result handler thread of a real pool dies here
                    self._handler_dead = True
                    SIM.fired["result_unpicklable"] += 1
                    return
            res._set(i, ok, data)

        self._used = True
        try:
            payload = self._payload(fn, args, kw or {})
        except Exception as e:
            res._set(i, False, e)
            return
        self._eng.submit(payload, deliver)

    def _map_async(self, func, iterable, mapper, chunksize=None, callback=None, error_callback=None):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        if not items:
            chunksize = 1
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)] if items else []
        res = _AsyncResult(self, len(chunks), callback, error_callback)
        for i, c in enumerate(chunks):
            self._submit(res, i, mapper, (func, c))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = _AsyncResult(self, 1, callback, error_callback, single=True)
        self._submit(res, 0, func, tuple(args), dict(kwds))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, _mapper, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, _mapper, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, _star, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, _star, chunksize, callback, error_callback)

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        items = list(iterable)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        done = collections.deque()
        results = []
        for c in chunks:
            r = _AsyncResult(self, 1, callback=None)
            results.append(r)
            r._done = (lambda r=r: done.append(r))
            self._submit(r, 0, _mapper, (func, c))

        def gen():
            pending = list(results)
            while pending:
                if ordered:
                    r = pending[0]
                    self._eng.drive(r.ready)
                else:
                    self._eng.drive(lambda: len(done) > 0)
                    r = done.popleft()
                pending.remove(r)
                if not r.ok:
                    raise r.exc
                yield from r.val[0]

        return gen()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        self._eng.stopped = True

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            while self._eng.step():
                pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

    @property
    def released(self):
        # (a pool that has not been given any work when the call was cut off is
        # dropped together with its idle workers)
        return self._state != "RUN" or not self._used


class SimThreadPool(SimPool):
    _threads = True

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


class SimFuture(cf.Future):
    def __init__(self, ex):
        super().__init__()
        self._ex = ex

    def _drive(self, timeout):
        eng = self._ex._eng
        if timeout is None:
            eng.drive(self.done)
        else:
            while not self.done() and eng.step():
                pass
            if not self.done():
                SIM.now += timeout
                raise cf.TimeoutError()

    def result(self, timeout=None):
        self._drive(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return super().exception(0)

    def cancel(self):
        ok = super().cancel()
        if ok and self._task is not None:
            self._task.cancelled = True
        return ok


class SimExecutor(cf.Executor):
    _threads = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None, thread_name_prefix=""):
        if max_workers is None:
            max_workers = _default_procs()
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._eng = _Engine(max_workers, self._threads, False, initializer, initargs)
        self._eng.on_broken = self._broken
        self._futs = []
        self._shut = False
        SIM.pools.append(self)

    def _broken(self):
        for f in self._futs:
            if not f.done():
                try:
                    f.set_exception(BrokenProcessPool(self._eng.broken))
                except cf.InvalidStateError:
                    pass

    def submit(self, fn, /, *args, **kwargs):
        if self._eng.broken:
            raise BrokenProcessPool(self._eng.broken)
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture(self)
        f._task = None
        self._eng.start()
        self._futs.append(f)

        def deliver(ok, data):
            if not self._threads:
                try:
                    data = pickle.loads(data)
                except BaseException:
                    SIM.fired["result_unpicklable"] += 1
                    self._eng.broken = "result could not be received"
                    self._broken()
                    return
            if f.cancelled():
                return
            f.set_running_or_notify_cancel()
            if ok:
                f.set_result(data)
            else:
                f.set_exception(data)

        if self._threads:
            payload = (fn, args, kwargs)
        else:
            try:
                payload = pickle.dumps((fn, args, kwargs))
            except Exception as e:
                f.set_exception(e)
                return f
        f._task = self._eng.submit(payload, deliver)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        items = list(zip(*iterables))
        if self._threads:
            chunksize = 1
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        futs = [self.submit(_star, fn, c) for c in chunks]

        def gen():
            for f in futs:
                yield from f.result(timeout)

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if cancel_futures:
            for f in self._futs:
                f.cancel()
        if wait:
            while self._eng.step():
                pass

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    @property
    def released(self):
        return self._shut or not self._futs  # (it starts its workers when it is given work)


class SimThreadExecutor(SimExecutor):
    _threads = True

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is None:
            max_workers = min(32, _default_procs() + 4)
        super().__init__(max_workers, None, initializer, initargs)


real_as_completed, real_wait = cf.as_completed, cf.wait


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if SIM is None or not any(isinstance(f, SimFuture) for f in fs):
        return real_as_completed(fs, timeout)

    def gen():
        pending = list(dict.fromkeys(fs))
        while pending:
            ready = [f for f in pending if f.done()]
            if not ready:
                eng = pending[0]._ex._eng
                if not eng.step():
                    if timeout is not None:
                        raise cf.TimeoutError()
                    raise SimHang("as_completed waits for results that can never arrive")
                continue
            f = ready[SIM.tape.choose(len(ready))]
            pending.remove(f)
            yield f

    return gen()


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if SIM is None or not any(isinstance(f, SimFuture) for f in fs):
        return real_wait(fs, timeout, return_when)

    def cond():
        d = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED:
            return len(d) > 0
        if return_when == cf.FIRST_EXCEPTION and any(not f.cancelled() and cf.Future.exception(f, 0) for f in d):
            return True
        return len(d) == len(fs)

    while not cond():
        if not fs[0]._ex._eng.step():
            if timeout is not None:
                break
            raise SimHang("wait for results that can never arrive")
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, set(fs) - done)


class _PoolSwitch:
    """Callable/class stand-in choosing real or simulated pool by whether a run is active."""


def _switch(simcls, realcls):
    class Sw(simcls):
        def __new__(cls, *a, **k):
            if SIM is None:
                return realcls(*a, **k)
            return object.__new__(simcls)

        def __init__(self, *a, **k):
            pass

    def make(*a, **k):
        if SIM is None:
            return realcls(*a, **k)
        return simcls(*a, **k)

    return make


# ----------------------------------------------------------------- importing pipit
_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        # (who imports a module holds its lock, and other threads wait for it)
        with sched.held():
            super().exec_module(module)

    def get_code(self, fullname):
        c = _code_cache.get(fullname)
        if c is None:
            with real_open(self.path, "rb") as f:
                c = compile(f.read(), self.path, "exec", dont_inherit=True)
            _code_cache[fullname] = c
        return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pipit" and not fullname.startswith("pipit."):
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(fullname, p), submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(fullname, rel + ".py", loader=_Loader(fullname, rel + ".py"))
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


def fresh_pipit():
    """A freshly imported pipit: no state survives from an earlier run."""
    for name in [n for n in sys.modules if n == "pipit" or n.startswith("pipit.")]:
        del sys.modules[name]
    mod = importlib.import_module("pipit")
    # the readers are imported lazily by pipit; they stay so
    return mod


# -------------------------------------------------------------------- monitoring
def _on_line(code, line):
    if not code.co_filename.startswith(PKG):
        return mon.DISABLE
    sim = SIM
    if sim is None or sim.suspended:
        return None
    sim.lines += 1
    if sim.lines > sim.budget:
        raise SimHang("step budget of %d lines exceeded" % sim.budget)
    h = sim.line_hook
    if h is not None:
        h(code, line)
    return None


def _on_call(code, off, fn, arg0):
    if not code.co_filename.startswith(PKG):
        return mon.DISABLE
    sim = SIM
    if sim is None or sim.suspended:
        return None
    h = sim.call_hook
    if h is not None:
        h(code, off, fn)
    return None


def monitor_calls(on):
    mon.set_events(TOOL, mon.events.LINE | (mon.events.CALL if on else 0))


def sim_sleep(s):
    if SIM is None:
        return real_sleep(s)
    SIM.now += max(0, s)
    SIM.fired["clock_advance"] += 1


def sim_clock():
    sim = SIM
    if sim is None:
        return real_time()
    sim.now += 1e-6
    return sim.now


_installed = False


def _record_lines(path):
    """DST_COV=FILE: append every line of pipit that is executed (tools/cover.py)."""
    mon.use_tool_id(3, "dst-cover")

    def line(code, n):
        f = code.co_filename
        if f.startswith(PKG):
            fd = real_os_open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            real_os_write(fd, ("%s:%d\n" % (f[len(PKG):], n)).encode())
            real_os_close(fd)
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def install(otf2=True):
    global _installed
    if _installed:
        return
    _installed = True
    if os.environ.get("DST_COV"):
        _record_lines(os.environ["DST_COV"])
    # large buffers of C libraries always come fresh (zeroed) from the kernel, so that
    # what is read beyond the end of a file cut short does not depend on earlier runs
    import ctypes

    ctypes.CDLL(None).mallopt(-3, 262144)
    import pandas  # noqa: F401  real locks, pools etc. of libraries are created unpatched
    import numpy  # noqa: F401
    import gzip  # noqa: F401
    import otf2 as _o  # noqa: F401

    sched.install()
    builtins.open = sim_open
    io.open = sim_open
    os.listdir, os.scandir = sim_listdir, sim_scandir
    os.open, os.read, os.write, os.close = sim_os_open, sim_os_read, sim_os_write, sim_os_close
    time.sleep = sim_sleep
    time.time = sim_clock
    real_mono, real_pc = time.monotonic, time.perf_counter
    time.monotonic = lambda: real_mono() if SIM is None else sim_clock()
    time.perf_counter = lambda: real_pc() if SIM is None else sim_clock()
    os.cpu_count = lambda: SIM.cores if SIM is not None else real_cpu_count()
    real_aff = os.sched_getaffinity
    os.sched_getaffinity = lambda pid=0: set(range(SIM.cores)) if SIM is not None else real_aff(pid)
    multiprocessing.cpu_count = os.cpu_count
    multiprocessing.context.BaseContext.cpu_count = lambda self: os.cpu_count()

    pool = _switch(SimPool, REAL["mpPool"])
    multiprocessing.Pool = pool
    real_ctx_pool = multiprocessing.context.BaseContext.Pool

    def ctx_pool(self, *a, **k):
        if SIM is None:
            return real_ctx_pool(self, *a, **k)
        return SimPool(*a, **k)

    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.pool.Pool = _switch(SimPool, REAL["Pool"])
    multiprocessing.pool.ThreadPool = _switch(SimThreadPool, REAL["ThreadPool"])
    import multiprocessing.dummy as dummy

    dummy.Pool = _switch(SimThreadPool, dummy.Pool)
    ppe, tpe = _switch(SimExecutor, REAL["PPE"]), _switch(SimThreadExecutor, REAL["TPE"])
    cf.ProcessPoolExecutor = ppe
    cf.ThreadPoolExecutor = tpe
    cfp.ProcessPoolExecutor = ppe
    import concurrent.futures.thread as cft

    cft.ThreadPoolExecutor = tpe
    cf.as_completed, cf.wait = sim_as_completed, sim_wait
    cf._base.as_completed, cf._base.wait = sim_as_completed, sim_wait

    # OTF2: pipit reads events through the buffered event reader's iterator
    from otf2.event_reader import BufferedEventReader
    from _otf2 import Error as OError

    real_iter = BufferedEventReader.__iter__

    def sim_iter(self):
        for ev in real_iter(self):
            sim = SIM
            if sim is not None and sim.otf2_fault is not None:
                sim.otf2_events += 1
                if sim.otf2_events >= sim.otf2_fault["n"] and not sim.otf2_fault.get("off"):
                    if sim.otf2_fault.get("do") == "short":
                        # what the C library does at the end of a file that was cut off
                        sim.otf2_fault["off"] = True
                        sim.fired["otf2_short_read"] += 1
                        return
                    if sim.otf2_events == sim.otf2_fault["n"]:
                        sim.fired["otf2_read_error"] += 1
                        raise make_otf2_error(OError)
            yield ev

    BufferedEventReader.__iter__ = sim_iter

    real_open_fn = _o.reader.Reader.__init__

    def sim_reader_init(self, path, *a, **k):
        if SIM is not None and not SIM.suspended and SIM.inside(path):
            SIM.opens += 1
            SIM.event("otf2open")
        return real_open_fn(self, path, *a, **k)

    _o.reader.Reader.__init__ = sim_reader_init

    sys.meta_path.insert(0, _Finder())
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.register_callback(TOOL, mon.events.CALL, _on_call)
    mon.set_events(TOOL, mon.events.LINE)


def make_otf2_error(cls):
    """An otf2 library error as the C binding raises it."""
    try:
        import _otf2
        _otf2.Reader_Open("/nonexistent/dst/traces.otf2")
    except cls as e:
        return e
    except Exception as e:  # pragma: no cover
        return e


def begin(sim):
    global SIM
    random.seed(82741)
    import numpy as np

    np.random.seed(82741)
    SIM = sim


def end():
    global SIM
    s, SIM = SIM, None
    sched.ACTIVE = None
    return s
