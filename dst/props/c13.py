"""Time profile."""
import numpy as np

from .. import lib, model

ID = "C13"
RUNS = {"quick": 3200, "thorough": 30000}
RULE = "more than one interval and either more than one location or a call crossing an interval edge"
REAL = ["pipit.trace.Trace.time_profile", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]
ASSUME = ["contributions are checked for executions whose matched calls nest (lost records can make calls overlap; exclusive time is then not defined)"]


def gen(rng, tier):
    p = lib.gen_case(rng, tier, lengthy=0.006, max_len=30)
    p["queries"] = [[rng.choice([1, 2, 3, 4, 5, 8, 10, 17]), rng.random() < 0.4] for _ in range(rng.choice([1, 1, 2]))]
    return p


def check(c, bins, normalized, df):
    rows = c.rows
    partner = model.match(rows, c.thread)
    t0, t1 = min(r.ts for r in rows), max(r.ts for r in rows)
    lib.expect(len(df) == bins, "rows", "%d rows for %d intervals" % (len(df), bins))
    eps = np.spacing(float(max(abs(t0), abs(t1), 1)))
    start, end = lib.col(df, "bin_start"), lib.col(df, "bin_end")
    edges = [t0 + (t1 - t0) * i / bins for i in range(bins + 1)]
    for i in range(bins):
        lib.expect(abs(start[i] - edges[i]) <= 4 * eps and abs(end[i] - edges[i + 1]) <= 4 * eps, "edges", lambda: "interval %d is [%s, %s], expected [%s, %s]" % (i, start[i], end[i], edges[i], edges[i + 1]))
    nloc = len({model.loc_of(r, c.thread) for r in rows})
    total = (t1 - t0) / bins * nloc
    names = sorted({r.n for r in rows if r.k == "Enter"})
    cols = [x for x in df.columns if x not in ("bin_start", "bin_end", "idle_time")]
    lib.expect(sorted(cols) == names, "columns", lambda: "profile has columns %s, expected %s" % (sorted(cols), names))
    if model.crossing(rows, partner, c.thread):
        return False, 0
    want = [{n: 0.0 for n in names} for _ in range(bins)]
    cross = 0
    # relative to t0, exact rational arithmetic scaled by `bins`
    W = t1 - t0
    for n, s, e in model.exclusive_intervals(rows, partner, c.thread):
        for i in range(bins):
            lo, hi = max((s - t0) * bins, i * W), min((e - t0) * bins, (i + 1) * W)
            if hi > lo:
                want[i][n] += (hi - lo) / bins
        if W and ((s - t0) * bins // W) != ((e - t0) * bins // W):
            cross += 1
    tol = 0.0101 + 8 * eps * (len(rows) + 2)
    for i in range(bins):
        used = sum(want[i].values())
        w = dict(want[i], idle_time=total - used)
        for n in list(names) + ["idle_time"]:
            got = df[n].iloc[i]
            got = 0.0 if lib.isna(got) else float(got)
            if normalized:
                if total <= 0 or total < 64 * eps:
                    continue  # (an interval has no length that can be told from zero)
                got *= total
            lib.expect(abs(got - w[n]) <= tol * (2 if n == "idle_time" else 1), "wrong-contribution", lambda: "interval %d [%s, %s] of %d: %s has %s ns, expected %s" % (i, start[i], end[i], bins, n, got, w[n]))
    return True, cross


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        if not any(r.k == "Enter" for r in c.rows):
            return
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        for bins, norm in plan["queries"]:
            if bins < 1:
                continue
            df = lib.must("time_profile", lib.apply_op, pp, c.trace, ["profile", {"num_bins": bins, "normalized": norm}])
            strict, cross = check(c, bins, norm, df)
            ctx.log(bins, norm, df)
            ctx.probe("strict_checks", int(strict))
            ctx.probe("pieces_crossing_edges", cross)
            if bins > 1 and (cross or len({r.loc for r in c.rows}) > 1):
                ctx.nontrivial = True
