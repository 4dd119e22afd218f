"""Inclusive and exclusive metrics."""
from .. import lib, model

ID = "C11"
RUNS = {"quick": 5000, "thorough": 120000}
RULE = "at least one call with children, and several locations or an unmatched record or an extra counter"
REAL = ["pipit.trace.Trace (inclusive and exclusive metrics)", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]


def gen(rng, tier):
    p = lib.gen_long(rng) if rng.random() < 0.0016 else lib.gen_case(rng, tier, max_len=60 if tier == "thorough" else 30)
    m = p["opts"]["metrics"] if p["via"] == "frame" else 0
    cols = ["Timestamp (ns)"] + [lib.metric(i) for i in range(m)]
    p["calls"] = []
    for _ in range(rng.choice([1, 2, 3])):
        p["calls"].append([rng.choice(["inc", "exc"]), None if rng.random() < 0.3 else rng.sample(cols, rng.randrange(1, len(cols) + 1))])
    p["calls"].append(["exc", None if rng.random() < 0.3 else cols])
    return p


def check(c, metrics, kinds):
    rows, df = c.rows, c.trace.events
    partner = model.match(rows, c.thread)
    parent, depth, children = model.structure(rows, partner, c.thread)
    nested = not model.crossing(rows, partner, c.thread)
    for m in metrics:
        raw = lib.col(df, m)
        inc = model.inc(rows, partner, raw)
        exc = model.exc(inc, children)
        name = "time" if m == "Timestamp (ns)" else m
        scale = max((abs(v) for v in inc.values()), default=1.0)
        for suffix, want in ((".inc", inc), (".exc", exc)):
            if suffix not in kinds:
                continue
            got = lib.col(df, name + suffix)
            for i, r in enumerate(rows):
                if i in want:
                    lib.expect(not lib.isna(got[i]) and lib.close(got[i], want[i], scale), "wrong" + suffix, lambda: "%s%s of row %d %r is %s, expected %s" % (name, suffix, i, r, got[i], want[i]))
                else:
                    lib.expect(lib.isna(got[i]), "spurious" + suffix, lambda: "%s%s of row %d %r is %s, expected none" % (name, suffix, i, r, got[i]))
            if suffix == ".exc" and m == "Timestamp (ns)" and nested:
                tot, out = {}, {}
                for i in want:
                    lib.expect(got[i] >= -1e-6 * max(1.0, scale), "negative-exclusive", lambda: "row %d %r has exclusive time %s" % (i, rows[i], got[i]))
                    l = model.loc_of(rows[i], c.thread)
                    tot[l] = tot.get(l, 0) + got[i]
                    if i not in parent:
                        out[l] = out.get(l, 0) + inc[i]
                for l in tot:
                    lib.expect(lib.close(tot[l], out.get(l, 0), scale * len(rows)), "not-conserved", lambda: "location %s: exclusive times sum to %s, outermost inclusive times to %s" % (l, tot[l], out.get(l, 0)))
    return partner, children


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        allm = ["Timestamp (ns)"] + [lib.metric(i) for i in range(c.metrics)]
        for k, cols in plan["calls"]:
            cols = cols if cols is None else [x for x in cols if x in allm]
            if cols == []:
                continue
            lib.must("calc_%s_metrics" % k, lib.apply_op, pp, c.trace, [k, {"columns": cols}])
            partner, children = check(c, allm if cols is None else cols, [".inc"] if k == "inc" else [".inc", ".exc"])
        if not plan["calls"]:
            return
    ctx.log(len(c.rows), sorted(partner.items()))
    ctx.probe("parents", len(children))
    ctx.probe("counters", c.metrics)
    ctx.nontrivial = bool(children) and (len({r.loc for r in c.rows}) > 1 or c.metrics > 0 or len(partner) < len(c.rows))
