"""Projections logs cut off by a crash end at the last recorded time."""
from .. import lib, loads, seams

ID = "C05"
RUNS = {"quick": 3500, "thorough": 16000}
RULE = "at least one PE died before closing its log after recording something"
REAL = ["pipit.readers.projections_reader", "pandas", "gzip"]
STUB = ["traced program and Charm++ tracer (simulated; PEs crash at arbitrary records)", "worker pools (simulated, fork semantics)", "core count"]
ASSUME = ["a log cut off by a crash ends after a complete record (records are written to the compressed file by block)"]


def gen(rng, tier):
    p = loads.gen(rng, loads.PROJ, tier, max_len=rng.choice([3, 10, 40]))
    p["crashed"] = [rng.random() < 0.5 for _ in range(rng.choice([1, 3, 5]))]
    # a crash can come after any record
    for _ in range(rng.choice([0, 1, 2])):
        l = rng.randrange(len(p["world"]["locs"]))
        p["world"]["faults"].append(["crash", l, rng.randrange(2 * len(p["world"]["scripts"][l]) + 2)])
    return {"trace": p, "envs": [loads.gen_env(rng) for _ in range(rng.choice([1, 1, 2]))]}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    for e in plan["envs"]:
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))):
            tr = lib.must("loading", ld.load, pp, e["nproc"], e["cct"])
        ld.check(tr, ctx, attrs=False)
        ctx.log("load", e["nproc"], e["cores"], len(tr.events))
    ctx.state("trace", [[(r.k, r.n, r.code) for r in l] for l in ld.ex.pes])
    ctx.probe("crashed", len(ld.ex.crashed))
    ctx.nontrivial = len(ld.ex.crashed) > 0
