"""One execution of a list of scripts (load a trace, analyse it) in an interpreter of its
own: python -m dst.child < request > results."""
import json
import random
import sys

from . import core, lib, loads, seams


class _Ctx:
    """Just the paths; a child counts nothing."""

    def __init__(self, root):
        self.root = root

    def path(self, n):
        return self.root + n

    def probe(self, *a):
        pass

    def world(self, w):
        pass

    def log(self, *a):
        pass


def script(pp, job, ctx, target):
    """Results of one script, one after the other: [what, text]."""
    out = []

    def add(what, fn, *a):
        try:
            v, err = lib.attempt(fn, *a)
        except lib.Violation as e:
            v, err = None, e
        out.append([what, core.canon(v) if err is None else "raises %s: %s" % (type(err).__name__, err if isinstance(err, lib.Violation) else str(err)[:200])])
        return v

    if "load" in job:
        fmt, nproc, cct = job["load"]["fmt"], job["nproc"], job["cct"]
        ld = loads.Load()
        ld.fmt, ld.dir, ld.files = fmt, target["dir"], {target["file"]: b""}
        tr = None
        try:
            tr, err = lib.attempt(ld.load, pp, nproc, cct and fmt != loads.HPC)
        except lib.Violation as e:
            err = e
        if tr is None:
            out.append(["load", "raises %s: %s" % (type(err).__name__, str(err)[:200])])
            return out
        out.append(["load", "\n".join(columns(tr))])
        if tr.cct is not None:
            add("tree", forest, tr)
    else:
        tr = lib.build_case(job["case"], ctx, pp).trace
    for op in job["ops"]:
        add(op[0], lib.apply_op, pp, tr, op)
    out.append(["table", "\n".join(columns(tr))])
    return out


def columns(tr):
    """Every column, in order, derived ones included."""
    out = []
    for d in (tr.events, tr.definitions):
        if d is not None:
            out.append("columns " + core.canon([str(c) for c in d.columns]))
            out += lib.fingerprint(d, list(d.columns))
    return out


def forest(tr):
    def walk(n):
        return [n._pipit_nid, n.level, str(getattr(n, "name", "")), [walk(c) for c in n.children]]

    return [walk(r) for r in tr.cct.roots]


def results(req):
    """Run all scripts of a request under its circumstances."""
    v = req["variant"]
    out = []
    for job, target in zip(req["jobs"], req["targets"]):
        pp = seams.fresh_pipit()
        ctx = _Ctx(req["root"])
        s = seams.Sim(req["root"], v["tape"], max(1, int(v["cores"])), 50_000_000, float(v["now"]))
        seams.begin(s)
        random.seed(int(v["rnd"]))
        import numpy as np

        np.random.seed(int(v["rnd"]) % (1 << 32))
        try:
            out.append(script(pp, job, ctx, target))
        except core.InvalidPlan:
            out.append([["invalid", ""]])
        finally:
            seams.end()
    return out


def main():
    import os

    req = json.loads(sys.stdin.read())
    fd = os.dup(1)
    os.dup2(2, 1)
    from . import runner

    runner.prepare()
    res = results(req)
    with os.fdopen(fd, "w") as f:
        json.dump(res, f)
        f.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
