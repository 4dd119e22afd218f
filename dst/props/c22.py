"""Nsight and CSV traces load completely and with the right identities."""
import random

from .. import lib, loads, seams

ID = "C22"
RUNS = {"quick": 3500, "thorough": 14000}
RULE = "a report or trace with at least two events"
REAL = ["pipit.readers.nsight_reader", "pipit.trace.Trace.from_csv", "pandas (reading through the simulated disk)"]
STUB = ["traced programs and tracers (simulated)", "disk: reads may be short"]
ASSUME = ["names are not ones pandas reads as missing values or numbers"]


def gen(rng, tier):
    p = loads.gen(rng, rng.choice([loads.NSIGHT, loads.NSIGHT, loads.CSV]), tier, lengthy=2)
    return {"trace": p, "short": rng.choice([0, 0, 1, 100]), "cct": rng.random() < 0.3, "ops": [lib.gen_op(rng) for _ in range(rng.choice([1, 2]))]}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    f = [{"op": "read", "n": 1, "err": "SHORT", "len": int(plan["short"])}] if plan["short"] else []
    with lib.sim(ctx, [], faults=f):
        tr = lib.must("loading", ld.load, pp, None, plan["cct"])
        ld.check(tr, ctx)
        df = tr.events
        if plan["cct"] and ld.fmt == loads.NSIGHT:
            lib.expect(tr.cct is not None and "Graph_Node" in df.columns, "no-tree", "the tree was asked for with the load, but there is none")
        have = {c: c in df.columns for c in ("Process", "Event Type", "Name", "Timestamp (ns)")}
        lib.expect(all(have.values()), "missing-column", lambda: str(have))
        enters = int((df["Event Type"] == "Enter").sum())
        for op in plan["ops"]:
            if op[0] in ("match", "caller", "inc", "exc", "cct", "flat", "imbalance", "idle", "profile"):
                if enters == 0 and op[0] in ("flat", "imbalance", "profile", "idle"):
                    continue
                kw = dict(op[1])
                if "columns" in kw:
                    kw["columns"] = ["Timestamp (ns)"]
                lib.must("analysis " + op[0], lib.apply_op, pp, tr, [op[0], kw])
                ctx.probe("op_" + op[0])
        if ld.fmt == loads.NSIGHT:
            check_match(ld, tr)
    ctx.log("load", ld.fmt, len(tr.events), plan["ops"])
    ctx.state("trace", loads.table(tr))
    ctx.probe("fmt_" + ld.fmt)
    ctx.nontrivial = len(tr.events) >= 2


def check_match(ld, tr):
    """Every range's own duration is found again: the loaded trace can be analysed."""
    from collections import Counter
    from ..csvw import laminar

    locs = {r.loc for r in ld.ex.ranges}
    if not all(laminar([r for r in ld.ex.ranges if r.loc == l]) for l in locs):
        return
    tr.calc_inc_metrics(["Timestamp (ns)"])
    df = tr.events
    e = df[df["Event Type"] == "Enter"]
    got = Counter(zip(e["PID"].tolist(), e["TID"].tolist(), map(str, e["Name"].tolist()), e["Timestamp (ns)"].tolist(), e["time.inc"].tolist()))
    want = Counter((r.loc[0], r.loc[1], r.name, r.start, float(r.end - r.start)) for r in ld.ex.ranges)
    lib.expect(got == want, "wrong-duration", lambda: "durations differ: %s instead of %s" % (list((got - want).items())[:2], list((want - got).items())[:2]))
