"""Loading and analysing are reproducible from run to run."""
import json
import os
import subprocess
import sys

from .. import child, core, lib, loads
from ..core import HarnessError

ID = "C23"
STUMPY = True
RUNS = {"quick": 170, "thorough": 5000}
RULE = "at least one script with a trace with events ran in interpreters with different hash seeds"
REAL = ["pipit.trace.Trace (loading and all analyses)", "all pipit readers", "otf2 library (C)", "pandas", "numpy", "string hashing and memory layout of separate interpreters"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics)", "directory listing order", "clocks", "seeds of the random modules"]
ASSUME = ["the number of cores and workers is the same in each run (C01 varies them)",
          "addresses of objects differ between interpreters but are not chosen by the seed: an order that depends on them shows up, but its replay may need several attempts"]


def gen(rng, tier):
    jobs = []
    for _ in range(rng.choice([6, 10, 14])):
        m = 0
        if rng.random() < 0.55:
            fmt = rng.choice([loads.OTF2] * 3 + [loads.PROJ] * 3 + [loads.HPC] * 3 + [loads.NSIGHT, loads.CSV])
            e = loads.gen_env(rng)
            j = {"load": loads.gen(rng, fmt, tier, lengthy=0, tie=rng.random() < 0.3, max_len=rng.choice([6, 20, 40]), max_procs=4), "nproc": e["nproc"], "cct": rng.random() < 0.3}
        else:
            j = {"case": lib.gen_case(rng, tier, max_len=rng.choice([10, 25]), max_procs=6, loaded=[])}
            j["case"].update(prefix=[], via="frame")
            m = j["case"]["opts"]["metrics"]
        j["ops"] = [lib.gen_op(rng, m, patterns=True) for _ in range(rng.choice([2, 3, 4]))]
        jobs.append(j)
    return {"jobs": jobs, "cores": rng.choice(loads.CORES),
            "variants": [{"hash": rng.randrange(1, 1 << 32), "tape": [rng.randrange(1 << 16) for _ in range(200)], "now": rng.randrange(1, 1 << 33), "rnd": rng.randrange(1 << 30),
                          "locale": rng.choice(["C.utf8", "C", "ascii", "ascii"]), "tz": rng.choice(["UTC", "Asia/Tokyo", "XYZ+7:30"])} for _ in range(2)]}


def spawn(req):
    v = req["variant"]
    env = dict(os.environ, PYTHONHASHSEED=str(int(v["hash"]) % (1 << 32)), TZ=str(v.get("tz", "UTC")))
    env.update({"ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8"}, "C": {"LC_ALL": "C"}}.get(v.get("locale"), {"LC_ALL": "C.utf8"}))
    p = subprocess.Popen([sys.executable, "-m", "dst.child"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=core.VERIF)
    return p


def run(plan, ctx, pp):
    jobs, targets, count = [], [], []
    for i, j in enumerate(plan["jobs"]):
        if "load" in j:
            try:
                ld = loads.make(j["load"], ctx, "trace%d" % i)
            except core.InvalidPlan:
                continue
            targets.append({"dir": ld.dir, "file": next(iter(ld.files))})
            count.append(ld.count())
        else:
            targets.append({})
            count.append(1)
        jobs.append(j)
    reqs = [{"jobs": jobs, "targets": targets, "root": ctx.root, "variant": dict(v, cores=plan["cores"])} for v in plan["variants"]]
    procs = [spawn(r) for r in reqs]
    for p, r in zip(procs, reqs):
        p.stdin.write(json.dumps(r).encode())
        p.stdin.close()
    outs = []
    for p in procs:
        data = p.stdout.read()
        p.wait()
        if p.returncode != 0 or not data:
            raise HarnessError("child interpreter ended with status %s" % p.returncode)
        outs.append(json.loads(data))
    # a third one: this interpreter
    outs.append(child.results({"jobs": jobs, "targets": targets, "root": ctx.root, "variant": {"tape": [], "cores": plan["cores"], "now": 1.7e9, "rnd": 0}}))
    ctx.fired["hash_seed"] += len(reqs)
    ctx.fired["locale"] += sum(v.get("locale") == "ascii" for v in plan["variants"])
    ctx.fired["clock_and_random_seed"] += len(reqs)
    for k, o in enumerate(outs[:-1]):
        for i, (a, b) in enumerate(zip(outs[-1], o)):
            for (what, x), (what2, y) in zip(a, b):
                lib.expect(what == what2 and x == y, "differs:" + what, lambda: "script %d, %s: %s in one interpreter, %s in another" % ((i, what) + _diff(x, y)))
            lib.expect(len(a) == len(b), "differs", lambda: "script %d: %d and %d results" % (i, len(a), len(b)))
    for i, a in enumerate(outs[-1]):
        ctx.log("script", i, [(w, core.digest(x)) for w, x in a])
        ctx.state("script", [w for w, _ in a], core.digest(a[0][1]) if a else "")
        ctx.probe("results", len(a))
        ctx.probe("failed_results", sum(x.startswith("raises") for _, x in a))
    ctx.probe("scripts", len(jobs))
    ctx.probe("interpreters", len(reqs))
    ctx.nontrivial = sum(count) > 0 and bool(reqs)


def _diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 200], b[i:i + 200]
