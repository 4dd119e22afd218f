"""Helpers shared by the property modules."""
import collections
import contextlib
import json
import os
import traceback
import zlib

import numpy as np
import pandas as pd

from . import core, frames, model, seams, world
from .core import InvalidPlan, SimHang, Tape, Violation


def where(e):
    """Last frame of the code under test in an exception's traceback."""
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if os.sep + "pipit" + os.sep in f.filename:
            return "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
    return "?"


def must(what, fn, *a, **k):
    """A call that has to succeed."""
    try:
        return fn(*a, **k)
    except (Violation, InvalidPlan):
        raise
    except Exception as e:
        if where(e) == "?":
            raise  # the harness' own mistake
        raise Violation("unexpected-" + type(e).__name__, "%s raised %s: %s (at %s)" % (what, type(e).__name__, str(e)[:300], where(e)))


def attempt(fn, *a, **k):
    """(value, None) or (None, exception)."""
    try:
        return fn(*a, **k), None
    except (Violation, InvalidPlan):
        raise
    except Exception as e:
        return None, e


@contextlib.contextmanager
def sim(ctx, tape=(), cores=4, budget=20_000_000, now=1_700_000_000.0, **kw):
    s = seams.Sim(os.path.abspath(ctx.root) + os.sep, tape, cores, budget, now)
    for k, v in kw.items():
        setattr(s, k, v)
    seams.begin(s)
    try:
        yield s
    finally:
        seams.end()
        ctx.sim_done(s)


@contextlib.contextmanager
def suspended():
    s = seams.SIM
    if s is None:
        yield
        return
    s.suspended += 1
    try:
        yield
    finally:
        s.suspended -= 1


def isna(v):
    if v is None or v is pd.NA or v is pd.NaT:
        return True
    try:
        return bool(v != v)
    except Exception:
        return False


def close(a, b, scale=1.0, rel=1e-9):
    if isna(a) or isna(b):
        return isna(a) and isna(b)
    return abs(float(a) - float(b)) <= rel * max(1.0, abs(float(a)), abs(float(b)), scale)


def fail(kind, msg):
    raise Violation(kind, msg)


def expect(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def col(df, name):
    if name not in df.columns:
        raise Violation("missing-column", "no column %r in %s" % (name, list(df.columns)))
    return df[name].tolist()


# ------------------------------------------------------------ recorded part of a table
RAW = ["Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "Attributes"]


def fingerprint(df, cols=None):
    """Content of the recorded columns, with row order."""
    cols = [c for c in df.columns if not derived(c)] if cols is None else cols
    out = ["idx" + core.canon(list(df.index))]
    for c in cols:
        out.append(core.canon(c) + "=" + core.canon(df[c].tolist()))
    return out


def metric(i):
    """Name of the i-th counter."""
    return "PAPI_%d" % i if i % 2 == 0 else "PAPI_%d.ref" % (i // 2)


def derived(c):
    return c.startswith("_") or c.endswith(".inc") or c.endswith(".exc") or c == "Graph_Node"


# -------------------------------------------------------------------- analysis vocabulary
def gen_op(rng, metrics=0, nproc=2, cheap=False, cct=True, patterns=False):
    m = ["time.exc", "time.inc"] + [metric(i) + ".exc" for i in range(metrics)]
    cnt = [metric(i) for i in range(metrics)] or ["Timestamp (ns)"]
    ops = [
        ["match", {}],
        ["caller", {}],
        ["inc", {"columns": [rng.choice(cnt)]}],
        ["exc", {"columns": rng.choice([[rng.choice(cnt)], cnt[::-1], cnt[:1] + ["Timestamp (ns)"] if metrics else cnt])}],
        ["inc", {"columns": None}],
        ["inc", {"columns": ["Timestamp (ns)"]}],
        ["exc", {"columns": None}],
        ["exc", {"columns": ["Timestamp (ns)"]}],
        ["flat", {"metrics": rng.choice(["time.exc", "time.inc"]), "per_process": rng.random() < 0.5}],
        ["flat", {"metrics": ["time.inc", "time.exc"], "per_process": False}],
        ["flat", {"metrics": rng.choice(["time.exc", "time.inc"]), "per_process": rng.random() < 0.3, "by": rng.choice(["Process", ["Name"], ["Name", "Process"]])}],
        ["imbalance", {"metric": rng.choice(["time.exc", "time.inc"]), "num_processes": rng.choice([1, 2, 99])}],
        ["idle", {"idle_functions": rng.choice([None, None, None, ["Idle"], ["foo", "a"], ["MPI_Wait"], []]), "mpi_events": rng.random() < 0.5}],
        ["comm", {"output": rng.choice(["size", "count"])}],
        ["hist", {"bins": rng.choice([1, 5, 20])}],
        ["over_time", {"output": rng.choice(["size", "count"]), "message_type": rng.choice(["send", "receive"]), "bins": rng.choice([1, 7, 50])}],
        ["by_process", {"output": rng.choice(["size", "count"])}],
        ["chrome", {}],
    ]
    if not cheap:
        ops += [["profile", {"num_bins": rng.choice([1, 3, 8]), "normalized": rng.random() < 0.4}]] * 2
        ops += [["multirun", {}]]
    if patterns:
        ops += [["patterns", {"proc": rng.choice([0, 0, 1]), "window": rng.choice([None, 3, 3, 4]), "metric": rng.choice(["time.exc", "time.inc"])}]]
    if cct:
        ops += [["cct", {}]] * 2
    return rng.choice(ops)


# what the analyses do unless they are told otherwise
DEFAULTS = {"flat": {"metrics": "time.exc", "per_process": False}, "imbalance": {"metric": "time.exc", "num_processes": 1}, "idle": {"mpi_events": False},
            "comm": {"output": "size"}, "by_process": {"output": "size"}, "over_time": {"output": "size", "message_type": "send", "bins": 50},
            "profile": {"num_bins": 50, "normalized": False}, "pattern": {"iterations": None, "window_size": None, "process": 0, "metric": "time.exc"}}


def apply_op(pp, trace, op, others=()):
    """Run one analysis; the result in a comparable form."""
    name, kw = op[0], dict(op[1])
    short = zlib.crc32(json.dumps([op, len(trace.events)], default=str).encode()) & 1

    def given(**args):
        """In every other call, arguments are left out that say what is the default."""
        return {k: v for k, v in args.items() if not (short and k in DEFAULTS[name] and v == DEFAULTS[name][k])}

    if kw.get("bins", 1) < 1 or kw.get("num_bins", 1) < 1 or kw.get("num_processes", 1) < 1:
        raise InvalidPlan("arguments")
    if name == "match":
        f = getattr(trace, "_match_events", None)
        f() if f else trace.calc_inc_metrics(["Timestamp (ns)"])
        return [col(trace.events, "_matching_event"), col(trace.events, "_matching_timestamp")]
    if name == "caller":
        f = getattr(trace, "_match_caller_callee", None)
        f() if f else trace.calc_exc_metrics(["Timestamp (ns)"])
        return [col(trace.events, "_depth"), col(trace.events, "_parent"), col(trace.events, "_children")]
    if name in ("inc", "exc"):
        cols = kw["columns"]
        if cols is not None:  # (a CSV file has no counters)
            cols = [c for c in cols if c in trace.events.columns] or ["Timestamp (ns)"]
        (trace.calc_inc_metrics if name == "inc" else trace.calc_exc_metrics)(cols)
        suffix = "." + name
        want = trace.numeric_cols if cols is None else cols
        got = []
        for c in want:
            c = ("time" if c == "Timestamp (ns)" else c) + suffix
            got.append([c, col(trace.events, c)])
        names = trace.inc_metrics if name == "inc" else trace.exc_metrics
        for c, _ in got:
            expect(c in names and list(names).count(c) == 1, "metric-list", "%s not listed exactly once in %s" % (c, names))
        if cols is None:
            # (these are all there can be, whatever else has been computed)
            got.append([sorted(names), sorted(c for c in trace.events.columns if isinstance(c, str) and c.endswith(suffix))])
        return got
    if name == "flat":
        by = {"groupby_column": kw["by"]} if kw.get("by") else {}
        return trace.flat_profile(**given(metrics=kw["metrics"], per_process=kw["per_process"]), **by)
    if name == "imbalance":
        m = kw["metric"]
        return trace.load_imbalance(**given(metric=m, num_processes=kw["num_processes"]))
    if name == "idle":
        f = kw["idle_functions"]
        if f is None:
            return trace.idle_time(**given(mpi_events=kw["mpi_events"]))
        return trace.idle_time(list(f), kw["mpi_events"])
    if name == "comm":
        return trace.comm_matrix(**given(output=kw["output"]))
    if name == "hist":
        return list(trace.message_histogram(bins=kw["bins"]))
    if name == "over_time":
        return list(trace.comm_over_time(**given(output=kw["output"], message_type=kw["message_type"], bins=kw["bins"])))
    if name == "by_process":
        return trace.comm_by_process(**given(output=kw["output"]))
    if name == "chrome":
        return trace.to_chrome()
    if name == "profile":
        return trace.time_profile(**given(num_bins=kw["num_bins"], normalized=kw["normalized"]))
    if name == "multirun":
        return pp.Trace.multirun_analysis([trace] + list(others))
    if name == "pattern":
        return trace.detect_pattern(kw["start"], **given(iterations=kw["iterations"], window_size=kw["window"], process=kw["proc"], metric=kw["metric"]))
    if name == "patterns":
        # (the most frequent function of the process; not every sequence can be searched)
        ev = trace.events
        if len(ev) > 1500:
            return "not searched"  # (the search's effort is quadratic)
        mine = ev[(ev["Event Type"] == "Enter") & (ev["Process"] == kw["proc"])]["Name"].tolist()
        start = max(mine, key=mine.count) if mine else "nothing"
        try:
            found = trace.detect_pattern(start, window_size=kw["window"], process=kw["proc"], metric=kw["metric"])
            return [d[[c for c in d.columns if not derived(c) and c != "Node"]] for d in found]
        except (ValueError, IndexError, ZeroDivisionError) as e:
            return "raises " + type(e).__name__
    if name == "cct":
        trace.create_cct()
        return tree(trace)
    raise InvalidPlan(str(op))


def scribble(result):
    """The caller changes the numbers and lists of a result it was given (in place)."""
    n = 0
    if isinstance(result, list):
        for r in result:
            n += scribble(r)
    elif isinstance(result, pd.DataFrame):
        for c in result.columns:
            v = result[c].values
            if isinstance(v, np.ndarray) and v.size:
                n += scribble(v)
    elif isinstance(result, np.ndarray) and result.flags.writeable and result.size:
        if result.dtype.kind in "if":
            result[...] = 7
            n += 1
        elif result.dtype == object:
            for x in result.flat:
                if isinstance(x, list):
                    x.clear()
                    n += 1
    return n


def tree(trace):
    """Calling context tree as nested lists, and each event's node."""
    seen = {}

    def walk(n):
        seen[id(n)] = n
        return [n._pipit_nid, n.level, [walk(c) for c in n.children]]

    roots = [walk(r) for r in trace.cct.roots]
    nodes = [None if isna(n) else n._pipit_nid for n in col(trace.events, "Graph_Node")]
    return [roots, nodes]


def applicable(op, case):
    """Whether the analysis is meaningful on these events (numpy's and pandas' own
    requirements on non-empty input are not pipit's)."""
    if op[0] in ("profile", "flat", "imbalance", "multirun"):
        return any(r.k == "Enter" for r in case.rows)
    if op[0] == "over_time":
        a, b = min(r.ts for r in case.rows), max(r.ts for r in case.rows)
        if (b - a or 1) / op[1]["bins"] < 8 * np.spacing(float(b)):
            return False
    if op[0] in ("hist", "over_time", "comm", "by_process"):
        return len(case.rows) > 0 and case.attrs
    return True


def gen_prefix(rng, metrics=0, nproc=2, most=4, cheap=False):
    if rng.random() < 0.35:
        return []
    return [gen_op(rng, metrics, nproc, cheap) for _ in range(rng.randrange(1, most + 1))]


def run_prefix(ctx, pp, case, prefix):
    for op in prefix:
        if applicable(op, case):
            must("prefix " + op[0], apply_op, pp, case.trace, op)
            ctx.log("prefix", op[0])


# ------------------------------------------------------------------------ analysis cases
def gen_case(rng, tier="quick", loaded=None, lengthy=0, **kw):
    if rng.random() < LOADED and loaded != []:
        return gen_loaded(rng, tier, kw.get("max_len", 30), loaded)
    w = world.gen_world(rng, **kw)
    if rng.random() < lengthy:
        w = world.lengthy(rng, w)
    if rng.random() < 0.08:
        w = world.sparse(rng, w)
    o = frames.gen_frame_opts(rng)
    return {"world": w, "opts": o, "prefix": gen_prefix(rng, o["metrics"], len(w["locs"]), cheap=True), "via": "csv" if rng.random() < 0.12 else "frame",
            "tape": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 20]))]}


# share of the cases whose events come from files on the simulated disk
LOADED = 0.15


def gen_loaded(rng, tier, max_len=30, formats=None):
    from . import loads

    fmt = rng.choice(formats or [loads.OTF2, loads.OTF2, loads.PROJ, loads.HPC, loads.HPC, loads.NSIGHT])
    ld = loads.gen(rng, fmt, tier, lengthy=0.3, **({} if fmt in (loads.HPC, loads.NSIGHT) else {"max_len": max_len, "max_procs": 4}))
    env = loads.gen_env(rng)
    env["cct"] = env["cct"] and fmt != loads.HPC
    return {"via": "load", "load": ld, "env": env, "opts": {"metrics": 0}, "prefix": gen_prefix(rng, 0, 3, cheap=True), "tape": env["tape"]}


def gen_long(rng, metrics=1):
    """A small program whose events repeat until there are tens of thousands of them."""
    w = world.gen_world(rng, max_procs=3, max_threads=2, max_len=rng.choice([12, 30]), faults=False, messages=False, big=0, cross=False)
    w["rows"] = rng.choice([33000, 40000, 66000, 70000])
    w["distinct"] = rng.random() < 0.3
    if w["distinct"]:
        w["rows"] = 12000
    o = frames.gen_frame_opts(rng)
    o["metrics"] = min(o["metrics"], metrics)
    return {"world": w, "opts": o, "prefix": [], "via": "csv" if rng.random() < 0.1 else "frame", "tape": []}


def repeated(rows, count, distinct=False):
    """The execution again and again (with other functions each time, if distinct), until
    there are `count` events."""
    if not rows or not 0 < count <= 100_000:
        raise InvalidPlan("length")
    times = -(-count // len(rows))
    if sum(r.k == "Enter" for r in rows) * 2 != len(model.match(rows)):
        raise InvalidPlan("calls that are never left would pile up")
    span = max(r.ts for r in rows) - min(r.ts for r in rows) + 1
    out = []
    for k in range(times):
        for r in rows:
            out.append(world.Rec(r.ts + k * span, r.k, r.n + "#%d" % k if distinct and k else r.n, r.cid and r.cid + k * 1_000_000, r.a, r.seq + k * 1_000_000, r.loc))
    return out


class Case:
    pass


def build_loaded(plan, ctx, pp):
    """Events that were recorded to files and read by pipit's reader.  (What the reader
    must deliver is decided elsewhere; here its table is what the analyses work on.)"""
    from . import loads

    if seams.SIM is None:
        with sim(_Mute(ctx), plan.get("tape", ())):
            return build_loaded(plan, ctx, pp)
    c = Case()
    with suspended():
        ld = loads.make(plan["load"], ctx, "case-" + core.digest(core.canon(plan["load"])))
    e = plan["env"]
    c.trace = must("loading", ld.load, pp, e["nproc"], bool(e["cct"]) and ld.fmt != loads.HPC)
    df = c.trace.events
    if not len(df):
        raise InvalidPlan("no events")
    c.w = getattr(ld, "w", None) or world.World()
    if not hasattr(c.w, "fired"):
        c.w.fired = {}
    c.opts = dict(plan["opts"])
    c.thread = c.opts["thread_col"] = "Thread" in df.columns
    c.attrs = "Attributes" in df.columns
    a = df["Attributes"].tolist() if c.attrs else [None] * len(df)
    t = df["Thread"].tolist() if c.thread else [0] * len(df)
    c.rows = []
    for i, (ts, k, n, p) in enumerate(zip(*(col(df, x) for x in ("Timestamp (ns)", "Event Type", "Name", "Process")))):
        ts = int(ts) if ts == int(ts) else ts
        c.rows.append(world.Rec(ts, k, n, None, a[i] if isinstance(a[i], dict) else None, i, (p, t[i])))
    c.metrics = 0
    while metric(c.metrics) in df.columns:
        c.metrics += 1
    if not all(isinstance(r.n, str) for r in c.rows):
        raise InvalidPlan("names that are numbers")
    c.df = None
    ctx.probe("via_" + ld.fmt)
    ctx.probe("events", len(c.rows))
    if len({r.loc for r in c.rows}) > 1:
        ctx.probe("multi_location")
    return c


def build_case(plan, ctx, pp):
    """Simulate the traced program and bring its events into pipit."""
    if plan.get("via") == "load":
        return build_loaded(plan, ctx, pp)
    c = Case()
    try:
        c.w = world.simulate(plan["world"])
    except (IndexError, KeyError, TypeError, ValueError, ZeroDivisionError, AttributeError) as e:
        raise InvalidPlan(str(e))
    ctx.world(c.w)
    c.opts = plan["opts"]
    c.rows = frames.rows_of(c.w, c.opts)
    if plan["world"].get("rows"):
        c.rows = repeated(c.rows, plan["world"]["rows"], plan["world"].get("distinct"))
        ctx.probe("long_trace")
    if c.opts.get("float_ts"):
        for r in c.rows:
            r.ts = int(float(r.ts))  # what a column of floats can hold
    c.thread = c.opts.get("thread_col", True)
    c.attrs = c.opts.get("attrs", True) and plan.get("via") != "csv"
    c.metrics = 0 if plan.get("via") == "csv" else c.opts.get("metrics", 0)
    if not c.rows:
        raise InvalidPlan("no events")
    c.df = None
    if plan.get("via") == "csv":
        if all(r.n.isdigit() for r in c.rows):
            raise InvalidPlan("a CSV column of numbers")
        # (one file for each world: several cases may live in one run)
        path = ctx.path("case-%s.csv" % core.digest(core.canon([plan["world"], plan["opts"]])))
        with suspended():
            write_csv(path, c.rows, c.opts)
        c.trace = must("from_csv", pp.Trace.from_csv, path)
        ctx.probe("via_csv")
    else:
        c.trace = frames.build_trace(pp, c.rows, c.opts)
    ctx.probe("events", len(c.rows))
    if len({r.loc for r in c.rows}) > 1:
        ctx.probe("multi_location")
    return c


def write_csv(path, rows, opts):
    import csv

    with seams.real_open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, quoting=csv.QUOTE_NONNUMERIC)
        h = ["Timestamp (ns)", "Event Type", "Name", "Process"]
        if opts.get("thread_col", True):
            h.append("Thread")
        w.writerow(h)
        for r in rows:
            v = [r.ts, r.k, r.n, r.loc[0]]
            if opts.get("thread_col", True):
                v.append(r.loc[1])
            w.writerow(v)


# ------------------------------------------------------------------------ interruptions
class Points:
    """Counts (and optionally stops at) the execution points of an analysis.

    what: "line" - every line of pipit that is executed (a user's Ctrl-C arrives
          between two bytecodes); "call" - calls out of pipit into pandas, numpy or
          builtins (where memory is allocated)."""

    def __init__(self, what):
        self.what, self.seq, self.stop, self.exc, self.hit = what, [], None, None, None

    def _hit(self, key):
        if self.stop is None:
            self.seq.append(key)
            return
        self.stop -= 1
        if self.stop == 0:
            self.hit = key
            e, self.exc = self.exc, None
            if e is not None:
                raise e

    def line(self, code, line):
        self._hit((code.co_filename, line))

    def call(self, code, off, fn):
        m = str(getattr(fn, "__module__", None) or "")
        if m.split(".")[0] in ("pandas", "numpy", "builtins"):
            self._hit((code.co_filename, code.co_firstlineno, off))

    @contextlib.contextmanager
    def on(self, s):
        if self.what == "line":
            s.line_hook = self.line
        else:
            seams.monitor_calls(True)
            s.call_hook = self.call
        try:
            yield self
        finally:
            s.line_hook = s.call_hook = None
            seams.monitor_calls(False)

    def choose(self, a, b):
        """Number of the point: a in [0,1000) picks the place in the code, b which of
        the times it is reached."""
        keys = sorted(set(self.seq))
        if not keys:
            return None
        k = keys[int(a) * len(keys) // 1000]
        idx = [i for i, x in enumerate(self.seq) if x == k]
        return idx[int(b) * len(idx) // 1000] + 1


LATER = 3


def interrupt(s, what, exc, where, twin, victim, later=0):
    """Run victim() and cut it off; twin() is the same call on a copy, used to learn
    which points it passes.  True if the call was cut off.  later: so many points
    after the chosen one."""
    p = Points(what)
    with p.on(s):
        _, err = attempt(twin)
    n = p.choose(*where)
    if n is None:
        return False
    q = Points(what)
    q.stop, q.exc = n + later, exc
    with q.on(s):
        try:
            victim()
        except (KeyboardInterrupt, MemoryError):
            pass
        except (Violation, InvalidPlan):
            raise
        except Exception:
            pass
    if q.hit is None:
        return False
    s.fired["interrupt" if isinstance(exc, KeyboardInterrupt) else "memory_error"] += 1
    s.trail.append("cut:%s" % (q.hit,)[0][1:].__str__())
    return True


def points(s, what, a, b, call):
    """Which point of call() to cut it off at; call() runs undisturbed."""
    p = Points(what)
    with p.on(s):
        attempt(call)
    return p.choose(a, b)


def cut_off(s, what, exc, n, call):
    """(result, error) of call(), cut off at its n-th point."""
    q = Points(what)
    q.stop, q.exc = n, exc
    with q.on(s):
        try:
            r, err = call(), None
        except (Violation, InvalidPlan):
            raise
        except (Exception, KeyboardInterrupt) as e:
            r, err = None, e
    if q.hit is not None:
        s.fired["interrupt" if isinstance(exc, KeyboardInterrupt) else "memory_error"] += 1
        s.trail.append("cut:%s" % (q.hit,)[0][1:].__str__())
    return r, err


# ---------------------------------------------------------------------------- histories
BAD = [["inc", {"columns": ["nope"]}], ["exc", {"columns": ["nope"]}], ["comm", {"output": "nope"}], ["flat", {"metrics": "nope", "per_process": True}],
       ["imbalance", {"metric": "nope.exc", "num_processes": 1}], ["chrome", {"path": True}], ["inc", {"columns": ["Timestamp (ns)", "nope"]}]]


def bad_call(trace, op, ctx):
    """A call the user got wrong; it is expected to fail."""
    name, kw = op
    if name == "inc":
        f = lambda: trace.calc_inc_metrics(list(kw["columns"]))
    elif name == "exc":
        f = lambda: trace.calc_exc_metrics(list(kw["columns"]))
    elif name == "comm":
        f = lambda: trace.comm_matrix(kw["output"])
    elif name == "flat":
        f = lambda: trace.flat_profile(kw["metrics"], per_process=kw["per_process"])
    elif name == "imbalance":
        f = lambda: trace.load_imbalance(kw["metric"])
    else:
        f = lambda: trace.to_chrome(ctx.path("no/such/dir/t.json"))
    _, e = attempt(f)
    return e


class Refs:
    """Results of analyses on a freshly loaded trace in a fresh session."""

    def __init__(self, plans, ctx):
        self.plans, self.ctx, self.memo = plans, ctx, {}

    def fresh(self, i):
        pp = seams.fresh_pipit()
        return pp, build_case(self.plans[i], _Mute(self.ctx), pp)

    def want(self, i, op, others=()):
        k = core.canon([i, op, list(others)])
        if k not in self.memo:
            pp, c = self.fresh(i)
            oth = [build_case(self.plans[j], _Mute(self.ctx), pp).trace for j in others]
            self.memo[k] = core.canon(must("first " + op[0], apply_op, pp, c.trace, op, oth))
        return self.memo[k]


class _Mute:
    """A context for building reference copies: counts nothing."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fired = collections.Counter()

    def path(self, n):
        return self.ctx.path(n)

    def probe(self, *a):
        pass

    def world(self, w):
        pass

    def sim_done(self, s):
        pass

    @property
    def root(self):
        return self.ctx.root

    def log(self, *a):
        pass
