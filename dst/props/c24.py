"""Pattern detection looks at one process and returns whole stretches of it."""
import numpy as np

from .. import lib, model, seams, world

ID = "C24"
STUMPY = True
RUNS = {"quick": 4000, "thorough": 30000}
RULE = "patterns were searched for in a process with repetitions while other processes ran, or its records were cut off"
REAL = ["pipit.trace.Trace.detect_pattern", "stumpy (its numerical kernels interpreted instead of compiled)", "pandas", "numpy"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]
ASSUME = ["which stretches of a sequence of numbers repeat is decided by stumpy.motifs; the check decides that pipit asks it about the right sequence and returns the right events"]


def gen(rng, tier):
    w = world.gen_world(rng, max_procs=4, max_threads=2, max_len=12, threads=rng.random() < 0.25, big=0.0)
    names = world.gen_names(rng)
    start = rng.choice(["loop", "main", names[0]])
    same = rng.random() < 0.6
    body = gen_body(rng, names)
    n = rng.choice([2, 3, 4, 6, 8])
    for l in range(len(w["locs"])):
        if l and rng.random() < 0.3:
            continue
        s = []
        if rng.random() < 0.5:
            s.append(["c", "main"])
        s += [["w", 3]] * rng.choice([0, 1])
        b = body if same else gen_body(rng, names)
        for i in range(n if l == 0 or rng.random() < 0.5 else rng.randrange(1, 9)):
            s.append(["c", start])
            s += [list(o) for o in b]
            if rng.random() < 0.2:
                s.append(["w", rng.choice([1, 2, 50])])
            s.append(["r"])
            s += [["w", 1]] * rng.choice([0, 1])
        w["scripts"][l] = s
    w["clock"]["step"] = rng.choice([0, 1, 1, 3])
    w["faults"] = w["faults"][: rng.choice([0, 0, 1, 2])]
    for f in w["faults"]:
        f[2] = rng.randrange(2 * len(w["scripts"][f[1] % len(w["locs"])]) + 1)
    from .. import frames

    o = frames.gen_frame_opts(rng)
    q = []
    for _ in range(rng.choice([1, 1, 2])):
        q.append({"start": start if rng.random() < 0.9 else rng.choice(names), "proc": rng.choice([0, 0, 0, 1, 2]),
                  "iterations": rng.choice([None, None, None, n, 1, 2]), "window": rng.choice([None, None, 3, 4, 5, len(body)]), "metric": rng.choice(["time.exc", "time.exc", "time.inc"])})
    return {"world": w, "opts": o, "prefix": lib.gen_prefix(rng, o["metrics"], len(w["locs"]), 2, cheap=True), "via": "frame", "tape": [], "queries": q}


def gen_body(rng, names):
    out = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        out.append(["c", rng.choice(names)])
        out.append(["w", rng.choice([1, 2, 5, 10, 100, 1000, rng.randrange(1, 5000)])])
        if rng.random() < 0.3:
            out += [["c", rng.choice(names)], ["w", rng.choice([1, 7, 30])], ["r"]]
        out.append(["r"])
        if rng.random() < 0.3:
            out.append(["w", rng.choice([1, 3])])
    return out


def expected(c, q):
    """Row numbers of each pattern, or None if there is nothing to search."""
    import stumpy

    rows = c.rows
    partner = model.match(rows, c.thread)
    _, _, children = model.structure(rows, partner, c.thread)
    v = model.inc(rows, partner, [r.ts for r in rows])
    if q["metric"] == "time.exc":
        v = model.exc(v, children)
    mine = [i for i, r in enumerate(rows) if r.loc[0] == q["proc"]]
    enters = [i for i in mine if rows[i].k == "Enter" and rows[i].n == q["start"]]
    leaves = [i for i in mine if rows[i].k == "Leave" and rows[i].n == q["start"]]
    n = len(enters) if q["iterations"] is None else q["iterations"]
    if not enters or not leaves or n < 1:
        return None
    calls = [i for i in mine if enters[0] < i < leaves[-1] and i in v]
    y = np.array([float(v[i]) for i in calls])
    win = int(len(y) / n) if q["window"] is None else q["window"]
    if win < 3 or win > len(y):
        return None
    try:
        mp = stumpy.stump(y, win)
        _, idx = stumpy.motifs(y, mp[:, 0], max_matches=n)
    except Exception:
        return None
    out = []
    for k in idx[0]:
        ts = {rows[i].ts for i in calls[k:k + win]}
        out.append([i for i in mine if rows[i].ts in ts])
    return out


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        before = lib.fingerprint(c.trace.events)
        for q in plan["queries"]:
            with lib.suspended():
                want = expected(c, q)
            if want is None:
                _, e = lib.attempt(lib.apply_op, pp, c.trace, ["pattern", q])
                ctx.log("not searchable", type(e).__name__)
                ctx.probe("not_searchable")
                continue
            got = lib.must("detect_pattern(%s)" % q, lib.apply_op, pp, c.trace, ["pattern", q])
            idx = [list(map(int, d.index)) for d in got]
            lib.expect(idx == want, "wrong-patterns", lambda: "detect_pattern(%s) returns rows %s, expected %s" % (q, _cut(idx), _cut(want)))
            for d, rows in zip(got, want):
                for k, i in enumerate(rows):
                    r = c.rows[i]
                    x = d.iloc[k]
                    lib.expect((x["Event Type"], x["Name"], int(x["Process"]), int(x["Timestamp (ns)"])) == (r.k, r.n, r.loc[0], r.ts), "wrong-event", lambda: "a pattern holds %s instead of %s" % (dict(x), r))
            ctx.log("patterns", idx)
            ctx.probe("patterns", len(idx))
            ctx.state("patterns", len(want), [len(w) for w in want], len({r.loc for r in c.rows}))
            if want and (len({r.loc[0] for r in c.rows}) > 1 or c.w.fired):
                ctx.nontrivial = True
        lib.expect(lib.fingerprint(c.trace.events, None) == before, "recorded-data-changed", "detect_pattern changed recorded data")


def _cut(x):
    return str(x)[:400]
