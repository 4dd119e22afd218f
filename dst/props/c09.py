"""Call structure: depth, parent, children."""
from .. import lib, model

ID = "C09"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = "at least one call with a parent, and several locations or an unmatched record"
REAL = ["pipit.trace.Trace (matching, caller/callee)", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]


def gen(rng, tier):
    if rng.random() < 0.0012:
        return lib.gen_long(rng)
    return lib.gen_case(rng, tier, max_len=60 if tier == "thorough" else 30)


def check(rows, df, thread):
    partner = model.match(rows, thread)
    parent, depth, children = model.structure(rows, partner, thread)
    d, p, c = lib.col(df, "_depth"), lib.col(df, "_parent"), lib.col(df, "_children")
    lib.expect(len(df) == len(rows), "row-count", "%d rows, recorded %d" % (len(df), len(rows)))
    for i, r in enumerate(rows):
        got_c = [] if c[i] is None or lib.isna(c[i]) else [int(x) for x in c[i]]
        want_c = children.get(i, [])
        lib.expect(got_c == want_c, "wrong-children", lambda: "row %d %r has children %s, expected %s" % (i, r, got_c, want_c))
        if i in depth:
            lib.expect(not lib.isna(d[i]) and int(d[i]) == depth[i], "wrong-depth", lambda: "row %d %r has depth %s, expected %d" % (i, r, d[i], depth[i]))
            want = parent.get(i)
            if want is None:
                lib.expect(lib.isna(p[i]), "wrong-parent", lambda: "row %d %r has parent %s, expected none" % (i, r, p[i]))
            else:
                lib.expect(not lib.isna(p[i]) and int(p[i]) == want, "wrong-parent", lambda: "row %d %r has parent %s, expected %d" % (i, r, p[i], want))
        else:
            lib.expect(lib.isna(d[i]) or r.k == "Leave", "spurious-depth", lambda: "row %d %r has depth %s, expected none" % (i, r, d[i]))
            lib.expect(lib.isna(p[i]) or r.k == "Leave", "spurious-parent", lambda: "row %d %r has parent %s, expected none" % (i, r, p[i]))
    return partner, parent


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        lib.must("call structure", lib.apply_op, pp, c.trace, ["caller", {}])
        partner, parent = check(c.rows, c.trace.events, c.thread)
    ctx.log(len(c.rows), sorted(parent.items()))
    un = sum(1 for i, r in enumerate(c.rows) if r.k != "Instant" and i not in partner)
    ctx.probe("unmatched", un)
    ctx.probe("calls_with_parent", len(parent))
    if model.crossing(c.rows, partner, c.thread):
        ctx.probe("crossing_calls")
    ctx.nontrivial = bool(parent) and (un > 0 or len({r.loc for r in c.rows}) > 1)
