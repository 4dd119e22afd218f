"""Flat profile, load imbalance, idle time."""
import math

from .. import lib, model

ID = "C12"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = "calls of at least one function on more than one process, or a call that is not matched"
REAL = ["pipit.trace.Trace (flat_profile, load_imbalance, idle_time)", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]
BY = ["Name"] * 6 + ["Thread", "Process", ["Name"], ["Name", "Thread"], ["Thread", "Name"], ["Name", "Process"]]
IDLE = [None, ["Idle"], ["main"], ["foo", "a"], ["MPI_Wait"], ["MPI_Send", "MPI_Recv", "MPI_Send"], []]


def gen(rng, tier):
    p = lib.gen_long(rng) if rng.random() < 0.0016 else lib.gen_case(rng, tier, max_len=40)
    m = ["time.exc", "time.inc"] + [lib.metric(i) + k for i in range(p["opts"]["metrics"]) for k in (".exc", ".inc")]
    q = []
    for _ in range(rng.choice([1, 2, 4])):
        x = rng.random()
        if x < 0.4:
            ms = rng.choice(["time.exc", "time.inc", ["time.exc"], ["time.inc", "time.exc"], ["time.exc", "time.inc"], rng.choice(m), rng.sample(m, rng.choice([1, 2]))])
            q.append(["flat", ms, rng.random() < 0.5, rng.choice(BY)])
        elif x < 0.7:
            q.append(["imbalance", rng.choice(m), rng.choice([1, 2, 3, 99])])
        else:
            q.append(["idle", rng.choice(IDLE), rng.random() < 0.5])
    p["queries"] = q
    return p


def values(c):
    """{metric: {row: value}}"""
    rows = c.rows
    partner = model.match(rows, c.thread)
    _, _, children = model.structure(rows, partner, c.thread)
    out = {}
    for m, raw in [("time", [r.ts for r in rows])] + [(lib.metric(i), c.raw[lib.metric(i)]) for i in range(c.metrics)]:
        out[m + ".inc"] = model.inc(rows, partner, raw)
        out[m + ".exc"] = model.exc(out[m + ".inc"], children)
    return out


def totals(c, vals, by="Name"):
    """{metric: {group: {process: sum over its calls}}}"""
    key = {"Name": lambda r: r.n, "Thread": lambda r: r.loc[1], "Process": lambda r: r.loc[0]}
    f = key[by] if isinstance(by, str) else lambda r: tuple(key[b](r) for b in by)
    out = {}
    for m, v in vals.items():
        out[m] = {}
        for i, r in enumerate(c.rows):
            if r.k == "Enter":
                d = out[m].setdefault(f(r), {})
                x = v.get(i, 0)
                d[r.loc[0]] = d.get(r.loc[0], 0) + (0 if lib.isna(x) else x)
    return out


def _plain(k, n):
    k = tuple(k) if isinstance(k, tuple) else (k,)
    k = tuple(x if isinstance(x, str) else int(x) for x in k)
    return k if n > 1 else k[0]


def check_flat(c, ms, per_process, by, got, vals, scale):
    ms = [ms] if not isinstance(ms, list) else ms
    cols = by if isinstance(by, list) else [by]
    tot = totals(c, vals, by if isinstance(by, str) or len(by) > 1 else by[0])
    lib.expect(list(got.columns) == ms, "columns", "flat profile has columns %s, asked for %s" % (list(got.columns), ms))
    n = len(cols) + int(per_process)
    for m in ms:
        want = {}
        for f, d in tot[m].items():
            if per_process:
                for p, v in d.items():
                    want[(f if len(cols) > 1 else (f,)) + (p,)] = v
            else:
                want[f] = sum(d.values()) / len(d)
        keys = [_plain(k, n) for k in got.index]
        lib.expect(len(keys) == len(set(keys)), "duplicate-rows", lambda: "a group is listed twice in the flat profile by %s" % by)
        got_v = got[m].tolist()
        if not per_process and isinstance(by, str):
            # what was recorded but never called may be listed without a value
            keys, got_v = zip(*[(k, v) for k, v in zip(keys, got_v) if k in want or not lib.isna(v)]) if any(k in want or not lib.isna(v) for k, v in zip(keys, got_v)) else ((), ())
        lib.expect(set(keys) == set(want), "wrong-rows", lambda: "flat profile by %s lists %s, expected %s" % (by, sorted(map(str, keys)), sorted(map(str, want))))
        for k, v in zip(keys, got_v):
            lib.expect(lib.close(v, want[k], scale), "wrong-profile", lambda: "%s of %s is %s, expected %s" % (m, k, v, want[k]))


def check_imbalance(c, m, k, got, tot, scale):
    tot = tot[m]
    lib.expect(sorted(got.index) == sorted(tot), "wrong-rows", lambda: "load imbalance lists %s, expected %s" % (sorted(got.index), sorted(tot)))
    last = math.inf
    imb, top, mean = lib.col(got, m + ".imbalance"), lib.col(got, "Top processes"), lib.col(got, m + ".mean")
    for f, gi, gt, gm in zip(got.index, imb, top, mean):
        d = tot[f]
        wm = sum(d.values()) / len(d)
        lib.expect(lib.close(gm, wm, scale), "wrong-mean", lambda: "mean of %s is %s, expected %s" % (f, gm, wm))
        lib.expect(gm <= last + 1e-9 * scale, "wrong-order", "rows are not in order of decreasing mean")
        last = gm
        mx = max(d.values())
        if abs(wm) > 1e-9 * scale:
            lib.expect(lib.close(gi, mx / wm, 1.0, 1e-6), "wrong-imbalance", lambda: "imbalance of %s is %s, expected %s" % (f, gi, mx / wm))
        gt = [int(x) for x in gt]
        n = min(k, len({r.loc[0] for r in c.rows}), len(d))
        lib.expect(len(gt) == n and len(set(gt)) == n, "top-processes", lambda: "%s lists the processes %s, expected %d of them" % (f, gt, n))
        lib.expect(all(x in d for x in gt), "top-processes", lambda: "%s lists process %s, which never called it" % (f, gt))
        want = sorted(d.values(), reverse=True)[:n]
        lib.expect(all(lib.close(d[x], w, scale) for x, w in zip(gt, want)), "top-processes", lambda: "%s lists %s with totals %s, the largest are %s" % (f, gt, [d.get(x) for x in gt], want))


def check_idle(c, idle, mpi, got, inc, scale):
    fn = set(["Idle"] if idle is None else idle)
    if mpi:
        fn |= {"MPI_Wait", "MPI_Waitall", "MPI_Recv"}
    want = {r.loc[0]: 0 for r in c.rows}
    for i, r in enumerate(c.rows):
        if i in inc and r.n in fn:
            want[r.loc[0]] += inc[i]
    ps, ts = [int(x) for x in lib.col(got, "Process")], lib.col(got, "Idle Time")
    lib.expect(sorted(ps) == sorted(want), "wrong-rows", lambda: "idle time lists processes %s, expected %s" % (ps, sorted(want)))
    for p, t in zip(ps, ts):
        lib.expect(lib.close(t, want[p], scale), "wrong-idle-time", lambda: "idle time of process %d is %s, expected %s (functions %s)" % (p, t, want[p], sorted(fn)))


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        if not any(r.k == "Enter" for r in c.rows):
            return
        c.raw = {lib.metric(i): c.trace.events[lib.metric(i)].tolist() for i in range(c.metrics)}
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        vals = values(c)
        tot, inc = totals(c, vals), vals["time.inc"]
        scale = max([1.0] + [abs(float(v)) for d in vals.values() for v in d.values() if not lib.isna(v)])

        def known(m):
            """Counters have to be calculated before they can be asked for."""
            if m not in vals:
                return "time.exc"
            if not m.startswith("time"):
                (c.trace.calc_inc_metrics if m.endswith(".inc") else c.trace.calc_exc_metrics)([m[:-4]])
            return m

        for q in plan["queries"]:
            if q[0] == "flat":
                ms = list(dict.fromkeys(known(m) for m in q[1])) if isinstance(q[1], list) else known(q[1])
                by = q[3]
                if "Thread" in by and not c.thread or ms == [] or by == []:
                    by, ms = "Name", ms or "time.exc"
                got = lib.must("flat_profile", lib.apply_op, pp, c.trace, ["flat", {"metrics": ms, "per_process": q[2], "by": by}])
                check_flat(c, ms, q[2], by, got, vals, scale)
                ctx.probe("by_" + "_".join(by if isinstance(by, list) else [by]))
            elif q[0] == "imbalance":
                m = known(q[1])
                got = lib.must("load_imbalance", lib.apply_op, pp, c.trace, ["imbalance", {"metric": m, "num_processes": q[2]}])
                check_imbalance(c, m, q[2], got, tot, scale)
            else:
                got = lib.must("idle_time", lib.apply_op, pp, c.trace, ["idle", {"idle_functions": q[1], "mpi_events": q[2]}])
                check_idle(c, q[1], q[2], got, inc, scale)
            ctx.log(q[0], got)
    ctx.probe("queries", len(plan["queries"]))
    multi = any(len(d) > 1 for d in tot["time.exc"].values())
    ctx.nontrivial = bool(plan["queries"]) and (multi or any(r.k == "Enter" and i not in inc for i, r in enumerate(c.rows)))
