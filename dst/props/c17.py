"""Analyses and exports never alter recorded data or caller arguments."""
from .. import core, frames, lib

ID = "C17"
STUMPY = True
RUNS = {"quick": 4000, "thorough": 60000}
RULE = "at least two analyses on an execution with calls"
REAL = ["pipit.trace.Trace (all analyses)", "pipit.util.cct", "pipit.writers.chrome_writer", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)", "disk of the export (simulated faults)"]


def gen(rng, tier):
    p = lib.gen_case(rng, tier, lengthy=0.003, max_len=25, max_procs=4)
    p["prefix"] = []
    hist = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        x = rng.random()
        if x < 0.15:
            hist.append(["bad", rng.choice(lib.BAD)])
        elif x < 0.35:
            hist.append(["cut", lib.gen_op(rng, p["opts"]["metrics"], patterns=True), rng.choice(["line", "line", "call"]), rng.randrange(1000), rng.randrange(1000)])
        elif x < 0.5:
            hist.append(["export", rng.choice([None, "open", "write", "close", "space"])])
        else:
            hist.append(["op", lib.gen_op(rng, p["opts"]["metrics"], patterns=True)])
    p["history"] = hist
    p["index"] = rng.choice([0, 0, 0, 1])
    return p


def snap(trace, defs):
    ev = trace.events
    out = {"columns": [c for c in ev.columns if not lib.derived(c)], "index": core.canon(list(ev.index)), "rows": len(ev)}
    for c in out["columns"]:
        out["col:" + str(c)] = core.canon(ev[c].tolist())
        out["dtype:" + str(c)] = str(ev[c].dtype)
    out["definitions"] = core.canon(trace.definitions) if trace.definitions is not None else None
    out["same definitions object"] = trace.definitions is defs
    out["numeric_cols"] = core.canon(list(trace.numeric_cols))
    return out


def _show(v):
    return str([x if isinstance(x, str) else "trace of %d events" % len(x.events) for x in v])


def compare(before, after, what):
    for k in before:
        lib.expect(k in after and before[k] == after[k], "altered:" + k.split(":")[0], lambda: "%s changed %s: %s -> %s" % (what, k, str(before[k])[:200], str(after.get(k))[:200]))
    new = [k for k in after if k not in before]
    lib.expect(not new, "altered:columns", lambda: "%s added %s" % (what, new))


def smaller(pp, c):
    """Another trace: of the same program, stopped half way."""
    n = 1 + len(c.rows) // 2
    return frames.build_trace(pp, c.rows[:n], c.opts) if any(r.k == "Enter" for r in c.rows[:n]) else None


def with_args(pp, c, trace, op):
    """The argument objects the caller passes in, to be compared afterwards."""
    kw = op[1]
    args = {}
    for k in ("columns", "idle_functions", "metrics", "by"):
        if isinstance(kw.get(k), list):
            args[k] = list(kw[k])
    if op[0] == "multirun":
        args["traces"] = [t for t in (trace, smaller(pp, c), trace) if t is not None]
    if "columns" in args:  # (a CSV file has no counters)
        args["columns"] = [x for x in args["columns"] if x in trace.events.columns] or ["Timestamp (ns)"]
    return args


def call(pp, trace, op, args):
    op = [op[0], dict(op[1], **args)]
    if op[0] == "idle" and "idle_functions" in args:
        return trace.idle_time(args["idle_functions"], op[1]["mpi_events"])
    if op[0] == "multirun":
        return pp.Trace.multirun_analysis(args["traces"])
    if op[0] in ("inc", "exc") and "columns" in args:
        return (trace.calc_inc_metrics if op[0] == "inc" else trace.calc_exc_metrics)(args["columns"])
    return lib.apply_op(pp, trace, op)


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]) as s:
        c = lib.build_case(plan, ctx, pp)
        t = c.trace
        defs = t.definitions
        before = snap(t, defs)
        done = 0
        for h in plan["history"]:
            if h[0] == "bad":
                if h[1][0] == "comm" and not c.attrs:
                    continue
                e = lib.bad_call(t, h[1], ctx)
                ctx.fired["failed_call"] += int(e is not None)
                what = "failed " + h[1][0]
            elif h[0] == "export":
                s.faults = [] if h[1] in (None, "space") else [{"op": h[1], "path": "out.json", "n": 1, "err": "EIO"}]
                s.write_budget = 10 if h[1] == "space" else None
                _, e = lib.attempt(t.to_chrome, ctx.path("out.json"))
                s.faults, s.write_budget = [], None
                what = "export (%s)" % h[1]
            else:
                op = h[1]
                if not lib.applicable(op, c):
                    continue
                args = with_args(pp, c, t, op)
                old = {k: (v, list(v)) for k, v in args.items()}
                if h[0] == "cut":
                    twin = lib.build_case(plan, lib._Mute(ctx), pp)
                    exc = KeyboardInterrupt() if h[2] == "line" else MemoryError("simulated")
                    lib.interrupt(s, h[2], exc, (h[3], h[4]), lambda: call(pp, twin.trace, op, with_args(pp, c, twin.trace, op)), lambda: call(pp, t, op, args))
                    what = "interrupted " + op[0]
                else:
                    lib.must(op[0], call, pp, t, op, args)
                    what = op[0]
                for k, (obj, was) in old.items():
                    lib.expect(obj == was, "altered:argument", lambda: "%s changed its argument %s from %s to %s" % (what, k, _show(was), _show(obj)))
            done += 1
            compare(before, snap(t, defs), what)
            ctx.log(what)
    ctx.state("history", [(h[0], str(h[1])) for h in plan["history"]])
    ctx.probe("steps", done)
    ctx.nontrivial = done >= 2 and lib.applicable(["flat"], c)
