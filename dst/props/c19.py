"""Traces analysed in different threads do not influence each other."""
from .. import core, lib, loads, sched, seams
from ..core import InvalidPlan, Tape

ID = "C19"
STUMPY = True
RUNS = {"quick": 2600, "thorough": 24000}
RULE = "at least two threads worked on traces with events, and the scheduler switched between them while they did"
REAL = ["pipit.trace.Trace (loading and all analyses)", "all pipit readers", "otf2 library (C)", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)", "thread scheduler (cooperative, preemption at every line of pipit)",
        "worker pools (simulated, fork semantics: a worker sees the parent's state at the moment of the fork)", "disk"]
ASSUME = ["threads are preempted between lines of pipit, not inside pandas, numpy or the OTF2 library"]


def gen(rng, tier):
    threads = []
    for _ in range(rng.choice([2, 2, 2, 3])):
        m = 0
        if rng.random() < 0.6:
            fmt = rng.choice([loads.OTF2, loads.OTF2, loads.PROJ, loads.PROJ, loads.HPC, loads.HPC, loads.NSIGHT, loads.CSV])
            w = {"load": loads.gen(rng, fmt, tier, lengthy=0, max_len=rng.choice([4, 10, 20]), max_procs=3), "env": loads.gen_env(rng)}
        else:
            w = {"case": lib.gen_case(rng, tier, max_len=14, max_procs=3)}
            w["case"]["prefix"] = []
            m = w["case"]["opts"]["metrics"]
        w["ops"] = [lib.gen_op(rng, m, patterns=True) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        threads.append(w)
    if rng.random() < 0.3:
        # the same program and analyses in each thread: meets in the same code
        threads[1] = dict(threads[0])
    meet = rng.random() < 0.35
    if meet:
        # the traces are loaded one after the other, then all analysed by the same analysis in each thread, with arguments of its own
        kind = rng.choice(["inc", "exc", "flat", "imbalance", "idle", "comm", "comm", "hist", "over_time", "by_process", "profile", "patterns", "cct"])
        for w in threads:
            m = w["case"]["opts"]["metrics"] if "case" in w else 0
            w["ops"] = [next(o for o in iter(lambda: lib.gen_op(rng, m, patterns=True), None) if o[0] == kind) for _ in range(rng.choice([1, 2, 4]))]
    g = rng.choice([2, 10, 50, 300])
    if meet:
        g = rng.choice([2, 4, 10, 40])
    return {"threads": threads, "meet": meet, "gaps": [rng.randrange(1, g + 1) for _ in range(rng.choice([3, 30, 300]))],
            "tape": [rng.randrange(64) for _ in range(rng.choice([20, 300]))], "cores": rng.choice(loads.CORES), "ptape": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 60]))]}


class Work:
    """One thread's trace and what it does with it."""

    def __init__(self, plan, ctx, i):
        self.plan, self.ctx = plan, ctx
        if "load" in plan:
            self.ld = loads.make(plan["load"], ctx, "trace%d" % i)
            self.events = self.ld.count()
        else:
            c = lib.build_case(plan["case"], ctx, seams.fresh_pipit())
            self.rows, self.opts = c.rows, c.opts
            self.events = len(c.rows)

    def steps(self, pp):
        """Results one after the other."""
        p = self.plan
        if "load" in p:
            e = p["env"]
            tr, err = lib.attempt(self.ld.load, pp, e["nproc"], e["cct"] and self.ld.fmt != loads.HPC)
            if err is not None:
                yield "load", _err(err)
                return
            yield "load", core.canon(loads.table(tr))
            if tr.cct is not None:
                yield "tree", _tree(tr)
        else:
            tr = lib.build_case(p["case"], lib._Mute(self.ctx), pp).trace
        yield "built", ""
        before = loads.table(tr)
        for op in p["ops"]:
            v, err = _attempt(lib.apply_op, pp, tr, op)
            yield op[0], core.canon(v) if err is None else _err(err)
        yield "recorded", core.canon([before == loads.table(tr), loads.table(tr)])


def _attempt(fn, *a):
    try:
        return lib.attempt(fn, *a)
    except lib.Violation as e:  # (a missing column, say: here only whether the results are the same counts)
        return None, e


def _err(e):
    return "raises " + type(e).__name__


def _tree(trace):
    v, err = _attempt(lib.tree, trace)
    return core.canon(v) if err is None else _err(err)


def run(plan, ctx, pp):
    works = [Work(t, ctx, i) for i, t in enumerate(plan["threads"])]
    alone = []
    for w in works:
        pp = seams.fresh_pipit()
        with lib.sim(ctx, (), cores=max(1, int(plan["cores"]))):
            alone.append(list(w.steps(pp)))
    pp = seams.fresh_pipit()
    got = [[] for _ in works]
    with lib.sim(ctx, plan["ptape"], cores=max(1, int(plan["cores"]))) as s:
        steps = [w.steps(pp) for w in works]
        if plan.get("meet"):
            for i, g in enumerate(steps):
                for r in g:
                    got[i].append(r)
                    if r[0] == "built":
                        break

        def body(i):
            def f():
                for r in steps[i]:
                    got[i].append(r)
            return f

        coop = sched.Coop([body(i) for i in range(len(works))], plan["gaps"], Tape(plan["tape"]))
        sched.ACTIVE = coop
        s.line_hook = lambda code, line: coop.point()
        try:
            coop.run()
        finally:
            s.line_hook = None
            sched.ACTIVE = None
        for t in coop.tasks:
            if t.exc is not None:
                raise t.exc
        n = max(0, len(coop.switches) - len(coop.tasks))
        s.fired["preemption"] += n
        ctx.state("schedule", coop.switches, plan["gaps"])
        ctx.hash.append(str(coop.switches))
    for i, (a, b) in enumerate(zip(alone, got)):
        for (what, x), (_, y) in zip(a, b):
            lib.expect(x == y, "influenced:" + what, lambda: "thread %d: %s gives %s, alone it gives %s" % ((i, what) + _diff(y, x)))
        lib.expect(len(a) == len(b), "influenced", lambda: "thread %d: %d results, alone %d" % (i, len(b), len(a)))
        ctx.log("thread", i, [(w, core.digest(x)) for w, x in b])
        ctx.probe("results", len(b))
        ctx.probe("failed_results", sum(x.startswith("raises") for _, x in b))
    ctx.probe("loads", sum("load" in w.plan for w in works))
    ctx.nontrivial = n >= 2 and sum(w.events > 0 for w in works) >= 2


def _diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 200], b[i:i + 200]
