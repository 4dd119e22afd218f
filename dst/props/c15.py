"""Comparison of several runs."""
from .. import frames, lib, model, world

ID = "C15"
RUNS = {"quick": 5000, "thorough": 30000}
RULE = "at least two runs, with a function missing in one of them or different numbers of processes"
REAL = ["pipit.trace.Trace.multirun_analysis, flat_profile, exclusive metrics", "pandas", "numpy"]
STUB = ["traced programs and tracers (simulated)"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    names = world.gen_names(rng)
    worlds = []
    for _ in range(n):
        w = world.gen_world(rng, max_len=20, max_procs=4)
        if rng.random() < 0.6:
            for s in w["scripts"]:
                for o in s:
                    if o[0] == "c":
                        o[1] = rng.choice(names)
        worlds.append(w)
    metric = "PAPI_0" if rng.random() < 0.2 else "Timestamp (ns)"
    runs = []
    for w in worlds:
        o = frames.gen_frame_opts(rng)
        if metric == "PAPI_0":
            o["metrics"] = max(1, o["metrics"])
        runs.append({"world": w, "opts": o, "prefix": lib.gen_prefix(rng, 0, 2, 2, cheap=True), "via": "frame"})
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.1:
        order.append(rng.randrange(n))
    return {"by": rng.choice(BY), "runs": runs, "order": order, "metric": metric, "again": rng.random() < 0.3, "tape": [rng.randrange(1 << 16) for _ in range(20)]}


BY = ["Name"] * 6 + ["Thread", "Process", ["Name"], ["Name", "Thread"], ["Name", "Process"]]
KEY = {"Name": lambda r: r.n, "Thread": lambda r: r.loc[1], "Process": lambda r: r.loc[0]}


def group(by):
    by = by[0] if isinstance(by, list) and len(by) == 1 else by
    return KEY[by] if isinstance(by, str) else lambda r: tuple(KEY[b](r) for b in by)


def plain(k):
    return tuple(map(plain, k)) if isinstance(k, tuple) else k if isinstance(k, str) else int(k)


def profile(c, metric, by):
    rows, f = c.rows, group(by)
    partner = model.match(rows, c.thread)
    _, _, ch = model.structure(rows, partner, c.thread)
    raw = [r.ts for r in rows] if metric == "Timestamp (ns)" else c.df[metric].tolist()
    exc = model.exc(model.inc(rows, partner, raw), ch)
    tot = {}
    for i, r in enumerate(rows):
        if r.k == "Enter":
            d = tot.setdefault(f(r), {})
            d[r.loc[0]] = d.get(r.loc[0], 0) + exc.get(i, 0)
    return {f: sum(d.values()) / len(d) for f, d in tot.items()}


def check(df, cs, metric, by):
    profs = [profile(c, metric, by) for c in cs]
    nproc = [len({r.loc[0] for r in c.rows}) for c in cs]
    lib.expect([int(x) for x in df.index] == nproc, "labels", lambda: "rows are labelled %s, the traces have %s processes" % (list(df.index), nproc))
    names = set().union(*profs)
    # what was recorded but never called may be listed without values
    got = [(plain(x), df.iloc[:, i].tolist()) for i, x in enumerate(df.columns)]
    got = [(x, v) for x, v in got if x in names or not all(lib.isna(y) for y in v)]
    cols = [x for x, _ in got]
    lib.expect(len(cols) == len(set(cols)) and set(cols) == names, "columns", lambda: "columns %s, groups %s" % (sorted(map(str, cols)), sorted(map(str, names))))
    scale = max([1.0] + [abs(v) for p in profs for v in p.values()])
    sums = []
    for f, got in got:
        for i, p in enumerate(profs):
            if f in p:
                lib.expect(not lib.isna(got[i]) and lib.close(got[i], p[f], scale), "wrong-entry", lambda: "%s in run %d is %s, that run's average is %s" % (f, i, got[i], p[f]))
            else:
                lib.expect(lib.isna(got[i]), "spurious-entry", lambda: "%s in run %d is %s, but that run never called it" % (f, i, got[i]))
        sums.append(sum(p.get(f, 0) for p in profs))
    lib.expect(all(a >= b - 1e-9 * scale for a, b in zip(sums, sums[1:])), "column-order", lambda: "columns %s have totals %s" % (cols, sums))


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        cs = []
        for r in plan["runs"]:
            c = lib.build_case(r, ctx, pp)
            c.df = c.trace.events.copy()
            if not any(x.k == "Enter" for x in c.rows):
                return
            if plan["metric"] == "PAPI_0" and c.metrics < 1:
                return
            lib.run_prefix(ctx, pp, c, r["prefix"])
            cs.append(c)
        sel = [cs[i % len(cs)] for i in plan["order"]] if cs else []
        if not sel:
            return
        by = plan["by"]
        if not by or "Thread" in by and not all(c.thread for c in sel):
            by = "Name"
        ctx.probe("by_" + "_".join(by if isinstance(by, list) else [by]))
        for _ in range(2 if plan["again"] else 1):
            df = lib.must("multirun_analysis", pp.Trace.multirun_analysis, [c.trace for c in sel], *([plan["metric"]] if by == "Name" else [plan["metric"], by]))
            check(df, sel, plan["metric"], by)
    ctx.log(df)
    ctx.probe("runs_compared", len(sel))
    fs = [{r.n for r in c.rows if r.k == "Enter"} for c in sel]
    ctx.nontrivial = len(sel) > 1 and (any(f != fs[0] for f in fs) or len({len({r.loc[0] for r in c.rows}) for c in sel}) > 1)
