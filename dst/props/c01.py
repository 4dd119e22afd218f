"""Parallel loading is exactly-once and independent of the number of workers."""
from .. import lib, loads, seams

ID = "C01"
RUNS = {"quick": 1500, "thorough": 14000}
RULE = "a trace with events loaded in at least two environments that differ in workers, cores or schedule"
REAL = ["pipit.readers.otf2_reader", "pipit.readers.projections_reader", "otf2 library (C) for reading", "pandas", "numpy", "gzip"]
STUB = ["traced programs and tracers (simulated)", "worker pools: processes are simulated in one interpreter with fork semantics (pickled arguments and results, private globals), order of task pick-up and completion decided by the scheduler", "core count"]
ASSUME = ["the OTF2 library's writer records what it is told"]


def gen(rng, tier):
    fmt = rng.choice([loads.OTF2, loads.OTF2, loads.PROJ])
    p = loads.gen(rng, fmt, tier)
    return {"trace": p, "envs": [loads.gen_env(rng) for _ in range(rng.choice([2, 2, 3, 4]))], "fresh": rng.random() < 0.5}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    first = None
    seen = set()
    for k, e in enumerate(plan["envs"]):
        if plan["fresh"] and k:
            pp = seams.fresh_pipit()
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))) as s:
            tr = lib.must("loading with %s workers on %s cores" % (e["nproc"], e["cores"]), ld.load, pp, e["nproc"], e["cct"])
            seen.add((e["nproc"], e["cores"], "|".join(s.trail)))
            if s.pools:
                ctx.probe("pool_loads")
        ld.check(tr, ctx)
        t = loads.table(tr)
        if first is None:
            first = t
        d = loads.first_diff(first, t)
        lib.expect(d is None, "depends-on-workers", lambda: "loaded with %s workers on %s cores the table differs from the first one: %s" % (e["nproc"], e["cores"], d))
        ctx.log("load", e["nproc"], e["cores"], len(tr.events))
    ctx.state("trace", first)
    ctx.probe("events", ld.count())
    ctx.probe("fmt_" + ld.fmt)
    ctx.nontrivial = ld.count() > 0 and len(seen) > 1
