"""An interrupted analysis can be repeated with correct results."""
from .. import core, lib, seams

ID = "C18"
STUMPY = True
RUNS = {"quick": 4500, "thorough": 40000}
RULE = "an analysis was cut off and another one made afterwards, on an execution with calls"
REAL = ["pipit.trace.Trace (all analyses)", "pipit.util.cct", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)", "user interrupts and memory exhaustion (injected at simulated execution points)"]


def gen(rng, tier):
    p = lib.gen_case(rng, tier, max_len=16, max_procs=3)
    p["prefix"] = [] if rng.random() < 0.6 else lib.gen_prefix(rng, 0, 2, 2, cheap=True)
    steps = []
    for _ in range(rng.choice([1, 1, 2])):
        op = lib.gen_op(rng, p["opts"]["metrics"], patterns=True)
        what = rng.choice(["line", "line", "line", "call"])
        steps.append(["cut", op, what, rng.randrange(1000), rng.randrange(1000)])
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append(["op", op if rng.random() < 0.5 else lib.gen_op(rng, p["opts"]["metrics"], patterns=True)])
    p["steps"] = steps
    return p


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]) as s:
        first = lib.build_case(plan, ctx, pp)
        steps = [h for h in plan["steps"] if lib.applicable(h[1], first)]
        refs = lib.Refs([plan], ctx)
        wants = [refs.want(0, h[1]) if h[0] == "op" else None for h in steps]
        pp = seams.fresh_pipit()
        c = lib.build_case(plan, lib._Mute(ctx), pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        cut, after = [], 0
        for h, want in zip(steps, wants):
            op = h[1]
            if h[0] == "cut":
                twin = lib.build_case(plan, lib._Mute(ctx), pp)
                lib.run_prefix(lib._Mute(ctx), pp, twin, plan["prefix"])
                exc = KeyboardInterrupt() if h[2] == "line" else MemoryError("simulated")
                if lib.interrupt(s, h[2], exc, (h[3], h[4]), lambda: lib.apply_op(pp, twin.trace, op), lambda: lib.apply_op(pp, c.trace, op)):
                    cut.append(op)
                ctx.log("cut", op, s.trail[-1:])
            else:
                got = core.canon(lib.must("%s after interrupted %s" % (op[0], cut), lib.apply_op, pp, c.trace, op))
                lib.expect(got == want, "wrong-after-interrupt:" + op[0], lambda: "%s after interrupted %s (%s) differs from a fresh trace: %s instead of %s" % ((op, cut, s.trail[-1:]) + _diff(got, want)))
                after += len(cut) > 0
                ctx.log("op", op[0], core.digest(got))
    ctx.probe("analyses_after_interrupt", after)
    ctx.nontrivial = after > 0 and lib.applicable(["flat"], c)


def _diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 200], b[i:i + 200]
