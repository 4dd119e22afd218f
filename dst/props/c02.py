"""Loading is fail-stop under storage and worker faults."""
import os

from .. import lib, loads, seams
from ..core import InvalidPlan

ID = "C02"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = "a trace with events was loaded while at least one fault that was injected took effect"
REAL = ["all pipit readers", "otf2 library (C) for reading, on real damaged files", "pandas", "numpy", "gzip/zlib"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics; workers killed, failing, or not startable)",
        "disk as seen through open/read/listdir (errors, short reads, files damaged or removed before or during loading)"]
ASSUME = ["the C library of OTF2 does its own I/O: its faults are files really damaged on disk, and errors or early ends of its event iterator",
          "a CSV file cut at a line cannot be told from a shorter one: only missing, empty and unreadable CSV files are injected"]
HARD = ["EIO", "EACCES", "EMFILE", "ENOENT"]


def gen(rng, tier):
    fmt = rng.choice([loads.OTF2, loads.OTF2, loads.PROJ, loads.PROJ, loads.PROJ, loads.HPC, loads.HPC, loads.NSIGHT, loads.CSV])
    p = loads.gen(rng, fmt, tier, max_len=rng.choice([4, 12, 40]), max_procs=4)
    e = loads.gen_env(rng)
    f = []
    if rng.random() < 0.12:  # memory runs out, or the user presses Ctrl-C, at some point of the load
        f.append([rng.choice(["memory", "memory", "interrupt"]), rng.randrange(1000), rng.randrange(1000)])
    for _ in range(rng.choice([1, 1, 1, 2]) if not f or rng.random() < 0.1 else 0):
        kinds = []
        if fmt in loads.PARALLEL:
            kinds += ["worker", "worker", "fork"]
        if fmt == loads.OTF2:
            kinds += ["otf2", "otf2", "cut", "cut", "cut", "rm", "zero"]
        if fmt == loads.PROJ:
            kinds += ["cut"] * 6 + ["rm", "zero", "read", "read", "open", "short", "list"]
        if fmt == loads.HPC:
            kinds += ["cut"] * 8 + ["rm", "zero", "read", "open", "short"]
        if fmt in (loads.NSIGHT, loads.CSV):
            kinds += ["rm", "zero", "read", "open", "short"]
        k = rng.choice(kinds)
        when = 0 if rng.random() < 0.7 else rng.randrange(1, 12)
        i = rng.randrange(64)
        if fmt == loads.PROJ and rng.random() < 0.3:
            i = -1  # the sts file
        if k == "worker":
            f.append([k, rng.choice([0, 0, 1, 2, 5]), rng.choice(["kill", "kill", "error", "oserror", "kill_late"])])
        elif k == "fork":
            f.append([k, rng.choice([1, 1, 2])])
        elif k == "otf2":
            f.append([k, rng.choice([1, 1, 2, 5, 20, 60]), rng.choice(["err", "short"])])
        elif k == "cut":
            at = rng.choice(["front", "back", "back", "mid"])
            f.append([k, i, at, rng.randrange(1, 1000 if at == "mid" else rng.choice([10, 20, 100, 1000])), when])
            if fmt == loads.HPC and rng.random() < 0.25:
                f[-1][2:4] = ["back", rng.randrange(9, 12)]  # into the last number before the footer
                for o in [x for x in p.values() if isinstance(x, dict) and "ids" in x]:
                    o["ids"] = "wide"
        elif k in ("rm", "zero"):
            f.append([k, i, when])
        elif k == "read":
            f.append([k, i, rng.choice([1, 1, 2, 3]), rng.choice(["EIO", "EIO", "ESTALE", "EOF"] if fmt in (loads.HPC, loads.PROJ) else ["EIO", "EIO", "ESTALE"])])
            if f[-1][3] == "EOF" and rng.random() < 0.7:
                f[-1].append(rng.randrange(1, rng.choice([13, 30, 300])))
        elif k == "open":
            f.append([k, i, rng.choice([1, 1, 2, 3]), rng.choice(HARD)])
        elif k == "short":
            f.append([k, i, rng.choice([1, 2, 7, 100])])
        else:
            f.append([k, rng.choice(["EIO", "EACCES"])])
    return {"trace": p, "env": e, "faults": f, "again": loads.gen_env(rng), "fresh": rng.random() < 0.2}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    names = sorted(ld.files)
    state = dict(ld.files)
    damaged = []

    def damage(name, content, what):
        if name not in state or state[name] == content:
            return
        path = os.path.join(ld.dir, name)
        if content is None:
            os.unlink(path)
            del state[name]
        else:
            with seams.real_open(path, "wb") as h:
                h.write(content)
            state[name] = content
        damaged.append((what, name))
        ctx.fired["file_" + what] += 1

    kw = {"faults": [], "mutations": [], "worker_faults": []}
    early, cut = [], None
    for f in plan["faults"]:
        k = f[0]
        if k in ("cut", "rm", "zero"):
            name = names[f[1] % len(names)]
            if k == "cut":
                size = len(ld.files[name])
                n = {"front": f[3], "back": size - f[3], "mid": size * f[3] // 1000}.get(f[2], 0)
                n = min(max(n, 0), size)
                act = lambda name=name, n=n: damage(name, state.get(name, b"")[:n], "truncated")
            elif k == "rm":
                act = lambda name=name: damage(name, None, "removed")
            else:
                act = lambda name=name: damage(name, b"", "emptied")
            when = int(f[-1])
            if when <= 0:
                early.append(act)
            else:
                kw["mutations"].append({"when": when, "fn": act})
        elif k == "worker":
            kw["worker_faults"].append({"task": f[1], "do": f[2]})
        elif k == "fork":
            kw["fork_faults"] = max(1, f[1])
        elif k == "otf2":
            kw["otf2_fault"] = {"n": max(1, f[1]), "do": f[2]}
        elif k in ("read", "open"):
            kw["faults"].append({"op": k, "path": os.path.basename(names[f[1] % len(names)]), "n": f[2], "err": f[3]})
            if len(f) > 4 and k == "read":
                kw["faults"][-1]["len"] = max(1, int(f[4]))
        elif k == "short":
            kw["faults"].append({"op": "read", "path": os.path.basename(names[f[1] % len(names)]), "n": 1, "err": "SHORT", "len": max(1, f[2])})
        elif k in ("memory", "interrupt"):
            cut = ["call", MemoryError("simulated"), f[1:3]] if k == "memory" else ["line", KeyboardInterrupt(), f[1:3]]
        elif k == "list":
            kw["faults"].append({"op": "list", "path": None, "n": 1, "err": f[1]})
        else:
            raise InvalidPlan(k)
    e = plan["env"]
    if cut:
        with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))) as s0:
            cut[2] = lib.points(s0, cut[0], *cut[2], call=lambda: ld.load(pp, e["nproc"], e["cct"]))
    for act in early:
        act()
    with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"])), **kw) as s:
        if cut and cut[2] is not None:
            tr, err = lib.cut_off(s, cut[0], cut[1], cut[2], lambda: ld.load(pp, e["nproc"], e["cct"]))
        else:
            tr, err = lib.attempt(ld.load, pp, e["nproc"], e["cct"])
    hard = bool(damaged) or any(v for k, v in s.fired.items() if k not in ("disk_read_SHORT", "listing_order", "clock_advance"))
    if err is not None:
        ctx.log("failed", type(err).__name__)
        ctx.probe("failed")
        lib.expect(hard, "spurious-error", lambda: "loading failed although nothing was wrong: %s: %s (at %s)" % (type(err).__name__, str(err)[:300], lib.where(err)))
    else:
        ctx.log("loaded", len(tr.events))
        try:
            ld.check(tr, ctx, attrs=True, metrics=True)
        except lib.Violation as v:
            raise lib.Violation("silent-" + v.kind, "loading returned a trace in spite of %s: %s" % (damaged or plan["faults"], v.msg))
        ctx.probe("loaded_complete")
    left = not all(p.released for p in s.pools)
    if left and cut and cut[2] is not None:
        # (nothing can be done about an interruption between starting work and
        # guarding it; a moment later, it must not be left behind)
        for k in range(1, lib.LATER + 1):
            with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"])), **kw) as s:
                lib.cut_off(s, cut[0], type(cut[1])("simulated"), cut[2] + k, lambda: ld.load(pp, e["nproc"], e["cct"]))
            left = left and not all(p.released for p in s.pools)
    lib.expect(not left, "pool-left-open", lambda: "after loading %s, a worker pool is still open" % ("failed" if err else "succeeded"))
    now = ld.on_disk()
    lib.expect(now == state, "files-modified", lambda: "loading changed the trace's files: %s" % sorted(set(now) ^ set(state) | {k for k in now if now.get(k) != state.get(k)}))
    # the fault is gone: loading again gives everything
    if damaged:
        ld.put(ctx, ld.name)
    if plan["fresh"]:
        pp = seams.fresh_pipit()
    a = plan["again"]
    with lib.sim(ctx, a["tape"], cores=max(1, int(a["cores"]))) as s2:
        tr = lib.must("loading again, without faults,", ld.load, pp, a["nproc"], a["cct"])
    ld.check(tr, ctx, attrs=True, metrics=True)
    lib.expect(all(p.released for p in s2.pools), "pool-left-open", "after loading again, a worker pool is still open")
    ctx.log("again", len(tr.events))
    ctx.state("fault", ld.fmt, damaged, sorted(s.fired.items()), err is None)
    ctx.probe("fmt_" + ld.fmt)
    ctx.nontrivial = hard and ld.count() > 0
