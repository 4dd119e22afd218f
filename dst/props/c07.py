"""OTF2 hardware counters stay attached to their event."""
from .. import lib, loads, seams

ID = "C07"
RUNS = {"quick": 2400, "thorough": 14000}
RULE = "a trace with counter readings on some events, loaded by simulated workers"
REAL = ["pipit.readers.otf2_reader", "otf2 library (C) for reading", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics)", "core count"]
ASSUME = ["the OTF2 library's writer records what it is told", "counters of one trace have different names"]


def gen(rng, tier):
    p = loads.gen(rng, loads.OTF2, tier, metrics=True, max_len=rng.choice([5, 20, 40]))
    return {"trace": p, "envs": [loads.gen_env(rng) for _ in range(rng.choice([1, 1, 2]))]}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    readings = sum(len(r.metrics) for rows in ld.ex.rows for r in rows)
    for e in plan["envs"]:
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))):
            tr = lib.must("loading", ld.load, pp, e["nproc"], e["cct"])
        ld.check(tr, ctx, metrics=True, defs=False)
        ctx.log("load", e["nproc"], e["cores"], len(tr.events), readings)
    ctx.state("trace", [[(r.k, r.n, sorted(r.metrics)) for r in rows] for rows in ld.ex.rows])
    ctx.probe("readings", readings)
    ctx.probe("groups", len(ld.opts["classes"]))
    ctx.nontrivial = readings > 0
