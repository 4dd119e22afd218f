"""Analysis results do not depend on what was computed before."""
from .. import core, lib, seams

ID = "C16"
STUMPY = True
OWNED = ("flat", "imbalance", "idle", "comm", "hist", "over_time", "by_process", "profile", "multirun")  # results that are new objects
RUNS = {"quick": 2400, "thorough": 30000}
RULE = "a history of at least two analyses with one repeated or on more than one trace, on an execution with calls"
REAL = ["pipit.trace.Trace (all analyses)", "pipit.util.cct", "pipit.writers.chrome_writer", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    runs = []
    for _ in range(n):
        p = lib.gen_case(rng, tier, max_len=20, max_procs=4)
        p["prefix"] = []
        runs.append(p)
    hist = []
    focus = None
    if rng.random() < 0.4:  # histories of few kinds of analyses with varying arguments
        focus = {lib.gen_op(rng, patterns=True)[0] for _ in range(rng.choice([1, 1, 2]))}
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        t = rng.randrange(n)
        x = rng.random()
        if x < 0.15:
            hist.append(["bad", t, rng.choice(lib.BAD)])
        elif x < 0.35 and hist and hist[-1][0] == "op":
            hist.append(["op", rng.randrange(n), rng.choice(hist)[2] if rng.random() < 0.5 and all(h[0] == "op" for h in hist) else hist[-1][2], []])
        else:
            op = lib.gen_op(rng, runs[t]["opts"]["metrics"], patterns=True)
            while focus and op[0] not in focus:
                op = lib.gen_op(rng, runs[t]["opts"]["metrics"], patterns=True)
            others = [j for j in range(n) if j != t and rng.random() < 0.5] if op[0] == "multirun" else []
            hist.append(["op", t, op, others])
    for h in hist:
        if h[0] == "op" and h[2][0] in OWNED and rng.random() < 0.3:
            h.append("scribble")
    return {"runs": runs, "history": hist, "tape": []}


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"], now=1_700_000_000.0):
        n = len(plan["runs"])
        if not n:
            return
        probe = [lib.build_case(p, ctx, pp) for p in plan["runs"]]
        hist = []
        for h in plan["history"]:
            h = [*h[:3], h[3] if len(h) > 3 else [], h[4] if len(h) > 4 else ""]
            t = h[1] % n
            if h[0] == "bad":
                if lib.applicable(["comm", {}], probe[t]) or h[2][0] not in ("comm",):
                    hist.append(["bad", t, h[2], [], ""])
                continue
            if h[2][0] == "multirun" and not all(lib.applicable(h[2], probe[j % n]) for j in h[3]):
                continue
            if lib.applicable(h[2], probe[t]):
                hist.append(["op", t, h[2], [j % n for j in h[3]], h[4]])
        refs = lib.Refs(plan["runs"], ctx)
        wants = [refs.want(t, op, others) if kind == "op" else None for kind, t, op, others, _ in hist]
        pp = seams.fresh_pipit()
        cs = [lib.build_case(p, lib._Mute(ctx), pp) for p in plan["runs"]]
        for k, (kind, t, op, others, then) in enumerate(hist):
            if kind == "bad":
                e = lib.bad_call(cs[t].trace, op, ctx)
                ctx.fired["failed_call"] += int(e is not None)
                continue
            result = lib.must("analysis %d (%s)" % (k, op[0]), lib.apply_op, pp, cs[t].trace, op, [cs[j].trace for j in others])
            got = core.canon(result)
            if then == "scribble":  # the caller changes the result it was given
                ctx.fired["result_changed"] += int(lib.scribble(result) > 0)
            del result
            lib.expect(got == wants[k], "history-dependent:" + op[0],
                       lambda: "%s after %s differs from the result on a fresh trace:\n got  %s\n want %s" % (op, [(h[1], h[2]) for h in hist[:k]], diff(got, wants[k])[0], diff(got, wants[k])[1]))
            ctx.log(k, t, op[0], core.digest(got))
    ctx.state("history", [(h[0], h[1], h[2][0]) for h in hist])
    ctx.probe("analyses", sum(h[0] == "op" for h in hist))
    ops = [h for h in hist if h[0] == "op"]
    ctx.nontrivial = len(ops) >= 2 and (len({h[1] for h in ops}) > 1 or len({h[2][0] for h in ops}) < len(ops)) and any(lib.applicable(["flat"], c) for c in cs)


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 200], b[i:i + 200]
