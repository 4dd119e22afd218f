"""A session keeps nothing of the traces it is done with, and stays as it was."""
import gc
import os
import weakref

from .. import lib, loads, seams, session
from ..core import InvalidPlan

ID = "C27"
STUMPY = True
RUNS = {"quick": 2400, "thorough": 20000}
RULE = "at least two calls, at least one of which loaded a trace that was dropped later"
REAL = ["all pipit readers, analyses and the Chrome writer", "otf2 library (C) for reading", "pandas", "numpy", "gzip", "the process's descriptors and the interpreter's state"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics; what a worker changes or leaves open is its own)", "core count", "disk as seen through open/read (errors)"]
ASSUME = ["objects in reference cycles count as freed when the garbage collector can free them"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    traces = []
    for _ in range(n):
        fmt = rng.choice([loads.OTF2, loads.OTF2, loads.PROJ, loads.PROJ, loads.HPC, loads.HPC, loads.NSIGHT, loads.CSV])
        traces.append(loads.gen(rng, fmt, tier, **({} if fmt in (loads.HPC, loads.NSIGHT) else {"max_len": rng.choice([4, 12, 25]), "max_procs": 4})))
    steps = []
    for _ in range(rng.choice([3, 5, 9])):
        x = rng.random()
        i = rng.randrange(n)
        if x < 0.3:
            steps.append(["load", i, loads.gen_env(rng)])
        elif x < 0.5:
            f = rng.choice([["cut", rng.randrange(64), rng.randrange(1000)], ["cut", rng.randrange(64), rng.randrange(1000)], ["rm", rng.randrange(64)],
                            ["read", rng.randrange(64), rng.choice([1, 2, 3])], ["open", rng.randrange(64), rng.choice([1, 2])],
                            ["worker", rng.choice([0, 1, 2]), rng.choice(["kill", "error", "oserror"])], ["fork"],
                            ["line", rng.randrange(1000), rng.randrange(1000)], ["call", rng.randrange(1000), rng.randrange(1000)]])
            steps.append(["bad_load", i, loads.gen_env(rng), f])
        elif x < 0.75:
            steps.append(["op", i, lib.gen_op(rng, 0, patterns=True)])
        elif x < 0.85:
            steps.append(["cut_op", i, lib.gen_op(rng, 0, patterns=True), rng.choice(["line", "call"]), rng.randrange(1000), rng.randrange(1000)])
        elif x < 0.93:
            steps.append(["export", i, rng.choice([None, None, "open", "write", "close", "space"])])
        else:
            steps.append(["drop", i])
    if not any(s[0] == "load" for s in steps):
        steps.insert(0, ["load", 0, loads.gen_env(rng)])
    return {"traces": traces, "steps": steps, "warm": rng.random() < 0.5}


class _Had:
    """What a failed call has to have let go of."""


def run(plan, ctx, pp):
    with session.unusual():
        _run(plan, ctx, pp)


def _run(plan, ctx, pp):
    lds = [loads.make(p, ctx, "t%d" % i) for i, p in enumerate(plan["traces"])]
    if not lds or any(len(st) < {"load": 3, "bad_load": 4, "op": 3, "cut_op": 6, "export": 3, "drop": 2}.get(st[0] if st else 0, 99) for st in plan["steps"]):
        raise InvalidPlan("steps")
    graph = __import__("sys").modules[pp.__name__ + ".graph"].Node
    held = {}
    otf2_gave_up = False
    before = session.open_files(ctx.root)
    loaded = dropped = calls = 0
    gc.collect()
    gc.freeze()  # (what is there already need not be looked at again and again)
    nodes0 = sum(1 for o in gc.get_objects() if isinstance(o, graph))

    def after(base, what):
        d = session.differences(base, session.snapshot())
        lib.expect(not d, "session-changed", lambda: "%s changed the session's %s" % (what, "; ".join(d)))

    def files(what, but):
        left = {fd: p for fd, p in session.open_files(ctx.root).items() if fd not in but and fd not in before and not (otf2_gave_up and p.replace(" (deleted)", "").endswith((".def", ".otf2")))}
        lib.expect(not left, "left-open", lambda: "%s left open: %s" % (what, sorted(p.replace(ctx.root, "") for p in left.values())))

    def drop(i):
        tr = held.pop(i)
        refs = [(n, weakref.ref(o)) for n, o in (("the trace", tr), ("its events", tr.events), ("its definitions", tr.definitions), ("its calling context tree", tr.cct)) if o is not None]
        del tr
        gc.collect()
        alive = [n for n, r in refs if r() is not None]
        lib.expect(not alive, "not-freed", lambda: "%s still in memory after a %s trace has been dropped" % (" and ".join(alive), lds[i].fmt))

    def env(e, **kw):
        return lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"])), **kw)

    for st in plan["steps"]:
        i = st[1] % len(lds)
        ld = lds[i]
        # (the OTF2 library itself does not close what it cannot open completely)
        otf2_gave_up |= st[0] == "bad_load" and ld.fmt == loads.OTF2 and st[3][0] in ("cut", "rm")
        if st[0] == "load":
            e = st[2]
            if i in held:
                drop(i)
            with env(e) as s:
                s.track_files = True
                base = session.snapshot()
                held[i] = lib.must("loading", ld.load, pp, e["nproc"], e["cct"])
                mine = s.worker_files
                lib.expect(all(p.released for p in s.pools), "pool-left-open", "a worker pool is still open after loading")
                what = "loading a %s trace" % ld.fmt
                after(base, what)
            del s
            loaded += 1
        elif st[0] == "bad_load":
            e, f = st[2], st[3]
            try:
                with session.own():
                    what, mine = failing(plan, ctx, pp, ld, e, f, env, after, files)
            except lib.Violation:
                if f[0] not in ("line", "call"):
                    raise
                # Between acquiring something and guarding it, there is a moment at which
                # nothing can be done about an interruption: only what is left behind a
                # little later, too, has been left without a guard.
                gc.collect()
                before.update(session.open_files(ctx.root))
                for k in range(1, lib.LATER + 1):
                    try:
                        with session.own():
                            failing(plan, ctx, pp, ld, e, f, env, after, files, k)
                    except lib.Violation:
                        gc.collect()
                        before.update(session.open_files(ctx.root))
                        continue
                    break
                else:
                    raise
                ctx.probe("unguarded_moment")
                what, mine = "a load cut off at an unguarded moment", ()
        elif i not in held:
            continue
        elif st[0] == "drop":
            drop(i)
            dropped += 1
            what, mine = "dropping a %s trace" % ld.fmt, ()
        elif st[0] in ("op", "cut_op"):
            op = st[2]
            if not usable(held[i], op):
                continue
            with lib.sim(ctx, ()) as s:
                base = session.snapshot()
                if st[0] == "op":
                    lib.attempt(lib.apply_op, pp, held[i], op)
                    what = op[0]
                else:
                    exc = KeyboardInterrupt() if st[3] == "line" else MemoryError("simulated")
                    twin = lib.must("loading", ld.load, pp, 1, False)
                    lib.interrupt(s, st[3], exc, (st[4], st[5]), lambda: lib.apply_op(pp, twin, op), lambda: lib.apply_op(pp, held[i], op))
                    del twin, exc
                    what = "interrupted " + op[0]
                    if session.differences(base, session.snapshot()) and not changes(ctx, pp, ld, st):
                        ctx.probe("unguarded_moment")
                        base = session.snapshot()
                after(base, what)
            mine = ()
            del s
        elif st[0] == "export":
            with lib.sim(ctx, ()) as s:
                s.faults = [] if st[2] in (None, "space") else [{"op": st[2], "path": "out.json", "n": 1, "err": "EIO"}]
                s.write_budget = 10 if st[2] == "space" else None
                base = session.snapshot()
                lib.attempt(held[i].to_chrome, ctx.path("out.json"))
                what, mine = "export (%s)" % st[2], ()
                after(base, what)
            del s
        else:
            raise InvalidPlan(st[0])
        calls += 1
        gc.collect()
        files(what, mine)
        ctx.log(what)
        ctx.probe("step_" + st[0])
    for i in sorted(held):
        drop(i)
        dropped += 1
    gc.collect()
    n = sum(1 for o in gc.get_objects() if isinstance(o, graph))
    lib.expect(n <= nodes0, "not-freed", lambda: "%d nodes of calling context trees are still in memory after all traces have been dropped" % (n - nodes0))
    files("dropping all traces", ())
    ctx.state("session", [[s[0], s[1], str(s[2:3])[:60]] for s in plan["steps"]], [l.fmt for l in lds])
    ctx.nontrivial = loaded > 0 and dropped > 0 and calls > 1


def changes(ctx, pp, ld, st):
    """Whether an analysis cut off a little later changes the session as well."""
    for k in range(1, lib.LATER + 1):
        with session.own(), lib.sim(ctx, ()) as s:
            base = session.snapshot()
            trace, twin = (lib.must("loading", ld.load, pp, 1, False) for _ in range(2))
            exc = KeyboardInterrupt() if st[3] == "line" else MemoryError("simulated")
            lib.interrupt(s, st[3], exc, (st[4], st[5]), lambda: lib.apply_op(pp, twin, st[2]), lambda: lib.apply_op(pp, trace, st[2]), k)
            del exc
            if not session.differences(base, session.snapshot()):
                return False
    return True


def usable(trace, op):
    return len(trace.events) > 0


def failing(plan, ctx, pp, ld, e, f, env, after, files, later=0):
    """A load that is made to fail; everything it had must be let go of."""
    kw = {}
    names = sorted(ld.files)
    damaged = False
    if f[0] in ("cut", "rm"):
        name = names[f[1] % len(names)]
        p = os.path.join(ld.dir, name)
        damaged = True
        if f[0] == "rm":
            os.unlink(p)
        else:
            with seams.real_open(p, "wb") as h:
                h.write(ld.files[name][: len(ld.files[name]) * f[2] // 1000])
    elif f[0] in ("read", "open"):
        kw["faults"] = [{"op": f[0], "path": os.path.basename(names[f[1] % len(names)]), "n": f[2], "err": "EIO"}]
    elif f[0] == "worker":
        kw["worker_faults"] = [{"task": f[1], "do": f[2]}]
    elif f[0] == "fork":
        kw["fork_faults"] = 1
    with env(e, **kw) as s:
        s.track_files = True
        base = session.snapshot()
        if f[0] in ("line", "call"):
            exc = KeyboardInterrupt() if f[0] == "line" else MemoryError("simulated")
            lib.interrupt(s, f[0], exc, (f[1], f[2]), lambda: ld.load(pp, e["nproc"], e["cct"]), lambda: ld.load(pp, e["nproc"], e["cct"]), later)
            del exc
        else:
            _, err = lib.attempt(ld.load, pp, e["nproc"], e["cct"])
            ctx.fired["failed_load"] += int(err is not None)
            del err, _
        mine = s.worker_files
        lib.expect(all(p.released for p in s.pools), "pool-left-open", "a worker pool is still open after loading failed")
        what = "a load that %s" % {"cut": "met a truncated file", "rm": "missed a file", "line": "was interrupted", "call": "ran out of memory"}.get(f[0], "met a %s error" % f[0])
        after(base, what)
    if damaged:
        ld.put(ctx, ld.name)
    if f[0] in ("line", "call"):
        del s
        gc.collect()
        files(what, mine)
    return what, mine
