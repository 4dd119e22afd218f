"""Tied timestamps never reorder a location's own events."""
from .. import lib, loads, seams

ID = "C04"
RUNS = {"quick": 3000, "thorough": 16000}
RULE = "a location records at least two events with the same timestamp"
REAL = ["all pipit readers", "otf2 library (C) for reading", "pandas", "numpy", "gzip"]
STUB = ["traced programs, their (coarse) clocks and tracers (simulated)", "worker pools (simulated, fork semantics)", "core count"]
ASSUME = ["the OTF2 library's writer records what it is told", "an Nsight report does not say in which order events of one thread with equal times happened, except that ranges nest"]


def gen(rng, tier):
    fmt = rng.choice([loads.OTF2, loads.OTF2, loads.PROJ, loads.PROJ, loads.HPC, loads.CSV, loads.NSIGHT])
    p = loads.gen(rng, fmt, tier, tie=True, max_len=rng.choice([20, 60, 120]), max_procs=4)
    if fmt == loads.CSV:
        p["opts"]["unit"] = rng.choice(["ns", "ns", "s"])
    return {"trace": p, "envs": [loads.gen_env(rng) for _ in range(rng.choice([1, 1, 2]))]}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    for e in plan["envs"]:
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))):
            tr = lib.must("loading", ld.load, pp, e["nproc"], e["cct"] and ld.fmt != loads.NSIGHT)
        ld.check(tr, ctx, defs=False)
        ctx.log("load", ld.fmt, e["nproc"], e["cores"], len(tr.events))
    ties = tied(ld)
    ctx.state("trace", ties)
    ctx.probe("ties", sum(ties))
    ctx.probe("fmt_" + ld.fmt)
    ctx.nontrivial = sum(ties) > 0


def tied(ld):
    ex = ld.ex
    if ld.fmt == loads.OTF2:
        seqs = [[r.ts for r in l] for l in ex.rows]
    elif ld.fmt == loads.PROJ:
        seqs = [[r.ts for r in l] for l in ex.pes]
    elif ld.fmt == loads.HPC:
        seqs = [[r.ts for r in l] for _, l in ex.locs]
    elif ld.fmt == loads.NSIGHT:
        by = {}
        for r in ex.ranges:
            by.setdefault(r.loc, []).extend([r.start, r.end])
        seqs = [sorted(v) for v in by.values()]
    else:
        by = {}
        for r in ex.rows:
            by.setdefault(r[3], []).append(r[0])
        seqs = list(by.values())
    return [sum(a == b for a, b in zip(s, s[1:])) for s in seqs]
