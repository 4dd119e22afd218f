"""Recorded traces of every format, for the properties of loading."""
import copy
import hashlib
import os

import numpy as np

from . import core, csvw, hpcw, lib, otf2w, projw, seams, world
from .core import InvalidPlan

OTF2, PROJ, HPC, NSIGHT, CSV = "otf2", "projections", "hpctoolkit", "nsight", "csv"
PARALLEL = [OTF2, PROJ]
ALL = [OTF2, PROJ, HPC, NSIGHT, CSV]
# share of the traces with more than a hundred locations
WIDE = 0.012
# share of the traces with thousands of events on one location
LENGTHY = 0.01
CORES = [1, 2, 3, 4, 8, 16, 64]


def gen(rng, fmt, tier="quick", tie=False, metrics=None, lengthy=1, **kw):
    p = {"fmt": fmt}
    lengthy = rng.random() < LENGTHY * lengthy
    if fmt == HPC:
        p["hpc"] = hpcw.gen(rng, big=True)
        if lengthy:
            l = [s for s in p["hpc"]["lines"] if s]
            if l:
                l = rng.choice(l)
                ctxs = p["hpc"]["ctxs"]

                def depth(c):
                    return 1 + depth(ctxs[c]["p"]) if c >= 0 else 0

                events = sum(2 * depth(c) for _, c in l) + 1
                l[0:0] = [["R", rng.choice([1100, 4200, 7000]) // events + 1, [list(s) for s in l]]]
        if tie:
            for l in p["hpc"]["lines"]:
                for s in l:
                    if s[0] != "R" and rng.random() < 0.6:
                        s[0] = 0
        return p
    if fmt == NSIGHT:
        p["nsight"] = csvw.gen_nsight(rng)
        if lengthy:
            p["nsight"]["times"] = rng.choice([1100, 2300, 4200]) // max(1, len(p["nsight"]["rows"])) + 1
        return p
    kw.setdefault("max_len", rng.choice([8, 30, 60]))
    w = world.gen_world(rng, threads=False if fmt == PROJ else None, faults=rng.random() < 0.3, **kw)
    if rng.random() < WIDE:
        w = world.wide(rng, w, fmt != PROJ)
    elif lengthy:
        w = world.lengthy(rng, w)
    if tie:
        w["clock"]["gran"] = rng.choice([1, 10, 1000, 10 ** 6, 10 ** 9])
        w["clock"]["step"] = rng.choice([0, 0, 0, 1])
    if fmt == CSV:
        # (names pandas itself would read as a number or a missing value say nothing)
        for s in w["scripts"]:
            for op in s:
                if op[0] == "c" and op[1] in ("0",):
                    op[1] = "zero"
    p["world"] = w
    if fmt == OTF2:
        p["opts"] = otf2w.gen_opts(rng, metrics, tier)
    elif fmt == PROJ:
        p["opts"] = projw.gen_opts(rng, tier)
        p["crashed"] = [rng.random() < 0.5 for _ in range(4)] if rng.random() < 0.25 else []
    else:
        p["opts"] = csvw.gen_csv_opts(rng)
    return p


class Load:
    """One trace on disk."""

    def put(self, ctx, name="trace"):
        """Write (or write again) the trace's files."""
        self.dir = ctx.path(name)
        self.name = name
        if self.fmt == OTF2:
            self._put_otf2(ctx)
        else:
            projw.put(ctx, name, self.files)
        return self

    def _put_otf2(self, ctx):
        os.makedirs(os.path.dirname(self.dir), exist_ok=True)
        if self.files:
            projw_put(self.dir, self.files)
            return
        self.ex = otf2w.write(self.dir, self.w, self.opts)
        self.files = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with seams.real_open(p, "rb") as h:
                    self.files[os.path.relpath(p, self.dir)] = h.read()

    def target(self):
        if self.fmt in (NSIGHT, CSV):
            return os.path.join(self.dir, next(iter(self.files)))
        return self.dir

    def load(self, pp, nproc=None, cct=False):
        t = self.target()
        if self.fmt == OTF2:
            return pp.Trace.from_otf2(t, nproc, cct)
        if self.fmt == PROJ:
            return pp.Trace.from_projections(t, nproc, cct)
        if self.fmt == HPC:
            return pp.Trace.from_hpctoolkit(t)
        if self.fmt == NSIGHT:
            return pp.Trace.from_nsight(t, cct)
        return pp.Trace.from_csv(t)

    def check(self, trace, ctx=None, attrs=False, metrics=False, defs=True):
        df = trace.events
        ex = self.ex
        if self.count() and "Process" in df.columns:
            bad = [x for x in df["Process"].tolist() if isinstance(x, bool) or not isinstance(x, (int, np.integer))]
            lib.expect(not bad, "process-number", lambda: "%d events are on a process that is no integer (%r)" % (len(bad), bad[0]))
        if self.fmt == OTF2:
            otf2w.check_events(ex, df, attrs, metrics)
            if defs:
                otf2w.check_definitions(ex, trace.definitions)
        elif self.fmt == PROJ:
            b = sum(r.code == projw.BCAST for rows in ex.pes for r in rows)
            missing = bool(b) and len(df) == sum(map(len, ex.pes)) - b
            if missing and ctx is not None:
                ctx.probe("known_bcast_dropped", b)
            projw.check_events(ex, df, attrs, missing)
        elif self.fmt == HPC:
            hpcw.check_events(ex, df)
            hpcw.check_tree(ex, trace)
        elif self.fmt == NSIGHT:
            csvw.check_nsight(ex, df)
        else:
            csvw.check_csv(ex, df)

    def count(self):
        ex = self.ex
        if self.fmt in (OTF2, HPC):
            return ex.count
        if self.fmt == PROJ:
            return sum(map(len, ex.pes))
        return 2 * len(ex.ranges) if self.fmt == NSIGHT else len(ex.rows)

    def on_disk(self):
        out = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with seams.real_open(p, "rb") as h:
                    out[os.path.relpath(p, self.dir)] = h.read()
        return out


def projw_put(d, files):
    for f, b in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with seams.real_open(p, "wb") as h:
            h.write(b)


def make(p, ctx, name="trace"):
    """Simulate the program, record it and write the trace."""
    ld = Load()
    ld.fmt = p["fmt"]
    ld.files = None
    try:
        if ld.fmt == HPC:
            ld.files, ld.ex = hpcw.build(p["hpc"])
        elif ld.fmt == NSIGHT:
            ld.files, ld.ex = csvw.build_nsight(p["nsight"])
        else:
            ld.w = world.simulate(p["world"])
            ctx.world(ld.w)
            ld.opts = p["opts"]
            if ld.fmt == PROJ:
                cr = p.get("crashed", [])
                if any(l[1] for l in ld.w.locs) or len(set(ld.w.locs)) != len(ld.w.locs):
                    raise InvalidPlan("one PE per location")
                ld.files, ld.ex = projw.build(ld.w, ld.opts, {i for i in range(40) if cr and cr[i % len(cr)]})
                ctx.fired["pe_crash"] += len(ld.ex.crashed)
            elif ld.fmt == CSV:
                ld.files, ld.ex = csvw.build_csv(ld.w, ld.opts)
                if not ld.ex.rows or all(r[2].isdigit() for r in ld.ex.rows):
                    raise InvalidPlan("no events")
            elif ld.fmt == OTF2:
                if not ld.w.locs or len(set(ld.w.locs)) != len(ld.w.locs):
                    raise InvalidPlan("locations")
        if ld.fmt == NSIGHT and not ld.ex.ranges:
            raise InvalidPlan("no events")
        ld.put(ctx, name)
    except (IndexError, KeyError, TypeError, ValueError, ZeroDivisionError, AttributeError, OverflowError, StopIteration) as e:
        raise InvalidPlan("%s: %s" % (type(e).__name__, e))
    except Exception as e:
        if type(e).__module__.startswith(("otf2", "_otf2", "struct")):
            raise InvalidPlan(str(e))
        raise
    return ld


def gen_env(rng):
    """How many workers are asked for, on what machine, in what order they run."""
    return {"nproc": rng.choice([None, None, 1, 2, 3, 4, 5, 7, 16, 1000, 0, -1]), "cores": rng.choice(CORES),
            "tape": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 40, 200]))], "cct": rng.random() < 0.15}


def table(trace):
    """The loaded table, row for row (metric columns in any order), without what
    analyses derive."""
    df = trace.events
    cols = [c for c in df.columns if not lib.derived(c) and c != "Node"]
    std = [c for c in cols if not str(c).startswith("PAPI")]
    rest = sorted(c for c in cols if str(c).startswith("PAPI"))
    out = lib.fingerprint(df, std + rest)
    d = trace.definitions
    if d is not None:
        out += lib.fingerprint(d)
    return out


def first_diff(a, b):
    if a == b:
        return None
    for x, y in zip(a, b):
        if x != y:
            i = 0
            while i < min(len(x), len(y)) and x[i] == y[i]:
                i += 1
            i = max(0, i - 60)
            return x[i:i + 160], y[i:i + 160]
    return "columns", "%s and %s" % (len(a), len(b))
