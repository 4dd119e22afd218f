"""Event details survive parallel loading."""
from .. import lib, loads, seams

ID = "C25"
RUNS = {"quick": 4000, "thorough": 14000}
RULE = "a trace whose events carry details, loaded by simulated workers"
REAL = ["pipit.readers.otf2_reader", "pipit.readers.projections_reader", "otf2 library (C) for reading", "pandas", "gzip"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics)", "core count"]
ASSUME = ["the OTF2 library's writer records what it is told", "receive times of Projections may be given in microseconds (as recorded) or nanoseconds"]


def gen(rng, tier):
    p = loads.gen(rng, rng.choice([loads.OTF2, loads.PROJ, loads.PROJ]), tier, max_len=rng.choice([5, 20, 40]))
    if p["fmt"] == loads.OTF2 and rng.random() < 0.6:
        p["opts"]["all_kinds"] = True
    # more messages and instant events
    for s in p["world"]["scripts"]:
        for _ in range(rng.choice([0, 2, 8])):
            s.insert(rng.randrange(len(s) + 1), ["m", "marker"] if rng.random() < 0.7 else [rng.choice(["s", "i"]), rng.randrange(4), rng.randrange(1 << rng.choice([3, 20, 33]))])
    n = len(p["world"]["scripts"])
    nproc = max(l[0] for l in p["world"]["locs"]) + 1
    for s in p["world"]["scripts"]:
        for op in s:
            if op[0] in ("s", "i"):
                op[1] %= nproc
    return {"trace": p, "envs": [loads.gen_env(rng) for _ in range(rng.choice([1, 1, 2]))]}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    for e in plan["envs"]:
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))):
            tr = lib.must("loading", ld.load, pp, e["nproc"], e["cct"])
        ld.check(tr, ctx, attrs=True)
        ctx.log("load", e["nproc"], e["cores"], len(tr.events))
    rows = ld.ex.rows if ld.fmt == loads.OTF2 else ld.ex.pes
    kinds = {(getattr(r, "code", None), r.k, r.n if r.k == "Instant" else "") for l in rows for r in l}
    for k in kinds:
        ctx.probe("kind %s %s %s" % (ld.fmt, k[1], k[2] if k[0] is None else k[0]))
    ctx.state("trace", [[(r.k, r.n, r.attrs) for r in l] for l in rows])
    ctx.nontrivial = any(r.attrs for l in rows for r in l)
