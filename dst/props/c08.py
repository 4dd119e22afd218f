"""Enter/leave matching."""
from .. import lib, model

ID = "C08"
RUNS = {"quick": 8000, "thorough": 200000}
RULE = "at least one matched call, and more than one location or an unmatched record or a recursive name"
REAL = ["pipit.trace.Trace (matching)", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]


def gen(rng, tier):
    if rng.random() < 0.0012:
        return lib.gen_long(rng)
    return lib.gen_case(rng, tier, max_len=60 if tier == "thorough" else 30)


def check(rows, df, thread):
    partner = model.match(rows, thread)
    me, mt = lib.col(df, "_matching_event"), lib.col(df, "_matching_timestamp")
    lib.expect(len(df) == len(rows), "row-count", "%d rows, recorded %d" % (len(df), len(rows)))
    for i, r in enumerate(rows):
        p = partner.get(i)
        if p is None:
            lib.expect(lib.isna(me[i]), "spurious-match", lambda: "row %d %r is matched with %s, expected unmatched" % (i, r, me[i]))
            lib.expect(lib.isna(mt[i]), "spurious-match", lambda: "row %d %r has matching time %s, expected none" % (i, r, mt[i]))
        else:
            lib.expect(not lib.isna(me[i]) and int(me[i]) == p, "wrong-match", lambda: "row %d %r matched with %s, expected %d" % (i, r, me[i], p))
            lib.expect(float(mt[i]) == float(rows[p].ts), "wrong-match-time", lambda: "row %d %r matching time %s, expected %s" % (i, r, mt[i], rows[p].ts))
    return partner


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        lib.must("matching", lib.apply_op, pp, c.trace, ["match", {}])
        partner = check(c.rows, c.trace.events, c.thread)
    ctx.log(len(c.rows), sorted(partner.items()))
    un = sum(1 for i, r in enumerate(c.rows) if r.k != "Instant" and i not in partner)
    ctx.probe("unmatched", un)
    ctx.probe("matched", len(partner) // 2)
    ctx.nontrivial = bool(partner) and (un > 0 or len({r.loc for r in c.rows}) > 1 or len({r.n for r in c.rows}) < len(partner) // 2)
