"""Loading always terminates."""
import contextlib
import resource

from .. import lib, loads, seams

ID = "C03"
RUNS = {"quick": 9000, "thorough": 60000}
RULE = "a trace whose files were damaged, or one of whose loading workers died"
REAL = ["all pipit readers", "otf2 library (C) for reading, on real truncated files", "pandas", "gzip/zlib"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics; a wait for a result that can never arrive is detected as such)", "disk"]
ASSUME = ["OTF2 files are truncated but no byte of them is changed: parsing them is the C library's business",
          "more than 3 GB of memory for a trace of a few kB counts as not terminating (a larger machine would only take longer)",
          "steps are lines of pipit executed; bound 200000 + 400 per byte + 1000 per event of the intact trace (about 20 times what intact traces need)"]


MEMORY = 3 << 30  # what a load of these small files may add to the process' address space


@contextlib.contextmanager
def limited():
    """Memory is finite: beyond the limit allocations fail."""
    old = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (now + MEMORY, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


def gen(rng, tier):
    fmt = rng.choice([loads.HPC] * 6 + [loads.OTF2, loads.PROJ, loads.PROJ, loads.NSIGHT, loads.CSV])
    p = loads.gen(rng, fmt, tier, max_len=rng.choice([4, 12, 30]), max_procs=4)
    d = []
    w = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        x = rng.random()
        if fmt in loads.PARALLEL and x < 0.4:
            w.append([rng.choice([0, 0, 1, 2, 4]), rng.choice(["kill", "kill", "kill_late", "error"])])
        elif x < 0.65 or fmt == loads.OTF2:
            d.append(["cut", rng.randrange(64), rng.randrange(1 << 20)])
        elif x < 0.85:
            d.append(["flip", rng.randrange(64), rng.randrange(1 << 20), rng.randrange(1, 256)])
        else:
            d.append(["set", rng.randrange(64), rng.randrange(1 << 20), rng.choice([0, 1, 0xFF, 0x7F, 0x80])])
    return {"trace": p, "damage": d, "workers": w, "env": loads.gen_env(rng)}


def run(plan, ctx, pp):
    ld = loads.make(plan["trace"], ctx)
    names = sorted(ld.files)
    files = dict(ld.files)
    for d in plan["damage"]:
        n = names[d[1] % len(names)]
        b = files[n]
        if not b:
            continue
        pos = d[2] % len(b)
        if d[0] == "cut":
            files[n] = b[:pos]
            ctx.fired["file_truncated"] += 1
        else:
            v = (b[pos] ^ (d[3] % 256)) if d[0] == "flip" else d[3] % 256
            files[n] = b[:pos] + bytes([v]) + b[pos + 1:]
            ctx.fired["byte_corrupted"] += 1
    loads.projw_put(ld.dir, files)
    e = plan["env"]
    size = sum(map(len, ld.files.values()))
    # (a sample of a deep stack stands for many events, a compressed log for much more text)
    with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"])), budget=200_000 + 400 * size + 1000 * ld.count(),
                 worker_faults=[{"task": t, "do": do} for t, do in plan["workers"]]) as s:
        with limited():
            tr, err = lib.attempt(ld.load, pp, e["nproc"], e["cct"] and ld.fmt != loads.HPC)
        out = isinstance(err, MemoryError) and "simulated" not in str(err)
        ctx.probe("refused_huge_read", out)
        # (HPCToolkit sections carry their length; a read of a corrupted, huge length is refused at once)
        lib.expect(not out or ld.fmt == loads.HPC, "memory", lambda: "loading %d bytes of a damaged %s trace needs more than %d bytes of memory" % (size, ld.fmt, MEMORY))
    ctx.log("load", ld.fmt, type(err).__name__ if err is not None else len(tr.events), s.lines)
    ctx.state("damage", ld.fmt, plan["damage"], plan["workers"], err is None)
    ctx.probe("failed" if err is not None else "loaded")
    ctx.probe("fmt_" + ld.fmt)
    ctx.stats["max_lines_per_100_bytes"] = max(ctx.stats["max_lines_per_100_bytes"], 100 * s.lines // max(1, size))
    ctx.nontrivial = bool(plan["damage"]) or s.fired["worker_kill"] > 0
