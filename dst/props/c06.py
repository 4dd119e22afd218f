"""HPCToolkit call stacks are rebuilt faithfully from samples."""
from .. import hpcw, lib, loads, seams, world

ID = "C06"
RUNS = {"quick": 9000, "thorough": 50000}
RULE = "a sampled execution whose call stack changes between samples"
REAL = ["pipit.readers.hpctoolkit_reader", "pipit.graph", "pandas"]
STUB = ["the sampled program and the measurement (simulated; databases are written after FORMATS.md)"]
ASSUME = ["databases follow FORMATS.md, including its room for larger records and gaps between sections", "every measured thread has an MPI rank"]


def gen(rng, tier):
    return {"trace": loads.gen(rng, loads.HPC, tier, tie=rng.random() < 0.3)}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    with lib.sim(ctx, []):
        tr = lib.must("loading", ld.load, pp)
    ld.check(tr, ctx)
    lines = [world._unroll(l) for l in plan["trace"]["hpc"]["lines"]]
    ctx.log("load", len(tr.events), [[s[1] for s in l] for l in lines])
    ctx.state("samples", [[s[1] for s in l] for l in lines], plan["trace"]["hpc"]["ctxs"])
    ctx.probe("samples", sum(map(len, lines)))
    ctx.probe("events", len(tr.events))
    ctx.sim_ns += sum(s[0] for l in lines for s in l)
    ctx.nontrivial = len(tr.events) > 0
