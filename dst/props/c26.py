"""Loading depends on what the trace's files contain now, and on nothing else."""
import os
import pathlib
import shutil

from .. import lib, loads, seams
from ..core import InvalidPlan

ID = "C26"
RUNS = {"quick": 2400, "thorough": 24000}
RULE = "at least two loads, from a place whose content or address changed in between"
REAL = ["all pipit readers", "otf2 library (C) for reading", "pandas", "numpy", "gzip"]
STUB = ["traced programs and tracers (simulated)", "worker pools (simulated, fork semantics)", "core count", "directory listing order"]
ASSUME = ["addresses are strings (and path objects for formats that are a single file)"]

PLACES = ["t", "my trace", "tr\u00e4ce", "a%20b", "t[1]", "#t", "~t", "t.sts", "deep/er/t", "traces.otf2", "x" * 120, "t.0.log.gz", "a'b\"c", "-t", "meta.db", "..t", "T", "tt", "t=1,2;3", "$HOME"]
FORMS = ["abs", "abs", "rel", "dot", "trail", "double", "dotdot", "link", "linkdir", "linkup", "rel_trail", "pathlib"]
LITTER = ["README.txt", ".DS_Store", "core.1234", "notes.sts~", "sub", "backup", "stale_pe", "more.log.gz", "tmp.csv"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    first = None
    traces = []
    for _ in range(n):
        fmt = first if first and rng.random() < 0.6 else rng.choice([loads.OTF2, loads.PROJ, loads.PROJ, loads.HPC, loads.NSIGHT, loads.CSV])
        first = first or fmt
        traces.append(loads.gen(rng, fmt, tier, **({} if fmt in (loads.HPC, loads.NSIGHT) else {"max_len": rng.choice([4, 12, 30]), "max_procs": 4})))
    places = rng.sample(PLACES, rng.choice([1, 1, 2, 3]))
    steps = [["put", 0, 0, False]]
    for _ in range(rng.choice([3, 5, 8, 12])):
        x = rng.random()
        if x < 0.3:
            steps.append(["put", rng.randrange(len(places)), rng.randrange(n), rng.random() < 0.5])
        elif x < 0.4:
            steps.append(["litter", rng.randrange(len(places)), rng.choice(LITTER)])
        elif x < 0.48:
            steps.append(["move", rng.randrange(len(places)), rng.choice(PLACES)])
        elif x < 0.58:
            steps.append(["cd", rng.choice(["", "elsewhere", "place"]), rng.randrange(len(places))])
        elif x < 0.63:
            steps.append(["touch", rng.randrange(len(places)), rng.choice([0, 1, 1_000_000_000, 4_000_000_000])])
        else:
            steps.append(["load", rng.randrange(len(places)), rng.choice(FORMS), loads.gen_env(rng)])
    steps.append(["load", rng.randrange(len(places)), rng.choice(FORMS), loads.gen_env(rng)])
    return {"traces": traces, "places": places, "steps": steps}


def address(form, target, ctx, k):
    """The same file or directory, addressed in another way."""
    isdir = os.path.isdir(target)
    if form == "rel":
        return os.path.relpath(target)
    if form == "dot":
        return "./" + os.path.relpath(target)
    if form == "rel_trail" and isdir:
        return os.path.relpath(target) + "/"
    if form == "trail" and isdir:
        return target + "/"
    if form == "double":
        return target.replace("/", "//")
    if form == "dotdot":
        return os.path.dirname(target) + "/../" + os.path.basename(os.path.dirname(target)) + "/" + os.path.basename(target)
    if form == "link":
        p = ctx.path("link%d" % k + os.path.splitext(target)[1])
        os.symlink(target, p)
        return p
    if form == "linkdir":
        p = ctx.path("ldir%d" % k)
        os.symlink(os.path.dirname(target), p)
        return p + "/" + os.path.basename(target)
    if form == "linkup":
        # (.. of what the link leads to, not of where it lies)
        p = ctx.path("up%d" % k)
        os.symlink(target if isdir else os.path.dirname(target), p)
        return p + "/../" + os.path.basename(target) if isdir else p + "/../" + os.path.basename(os.path.dirname(target)) + "/" + os.path.basename(target)
    if form == "pathlib" and not isdir:
        return pathlib.Path(target)
    return target


def run(plan, ctx, pp):
    lds = [loads.make(p, ctx, "src/%d" % i) for i, p in enumerate(plan["traces"])]
    places = list(dict.fromkeys(plan["places"]))
    if not places or not lds or any(not isinstance(p, str) or not p or p.startswith("/") or ".." in p.split("/") for p in places + [s[2] for s in plan["steps"] if s[0] == "move"]):
        raise InvalidPlan("places")
    os.makedirs(ctx.path("elsewhere"), exist_ok=True)
    base = os.getcwd()
    os.chdir(ctx.root)
    here = {}  # place -> trace
    loaded = changed = 0
    seen = set()
    try:
        for k, st in enumerate(plan["steps"]):
            what = st[0]
            if what == "put":
                place, i = places[st[1] % len(places)], st[2] % len(lds)
                d = ctx.path("p/" + place)
                inplace = place in here and here[place][0] == i
                if not inplace and os.path.isdir(d):
                    if os.path.realpath(os.getcwd()).startswith(os.path.realpath(d)):
                        os.chdir(ctx.root)
                    shutil.rmtree(d)
                loads.projw_put(d, lds[i].files)
                if st[3]:
                    for root, _, fs in os.walk(d):
                        for f in fs:
                            os.utime(os.path.join(root, f), (1_600_000_000, 1_600_000_000))
                if place in here and here[place][0] != i:
                    changed += 1
                    ctx.fired["replaced"] += 1
                here[place] = (i, d)
                continue
            if what == "cd":
                d = {"": ctx.root, "elsewhere": ctx.path("elsewhere")}.get(st[1])
                if d is None:
                    d = here.get(places[st[2] % len(places)], (0, ctx.root))[1]
                os.chdir(d)
                ctx.fired["chdir"] += 1
                continue
            place = places[st[1] % len(places)]
            if place not in here:
                continue
            i, d = here[place]
            ld = lds[i]
            if what == "move":
                new = ctx.path("p/" + st[2])
                # (one place does not lie within another)
                if os.path.exists(new) or st[2] in places or os.path.realpath(os.getcwd()).startswith(os.path.realpath(d)):
                    continue
                os.makedirs(os.path.dirname(new), exist_ok=True)
                os.rename(d, new)
                here[place] = (i, new)
                changed += 1
                ctx.fired["moved"] += 1
            elif what == "litter":
                litter(st[2], d, ld)
                changed += 1
                ctx.fired["unrelated_file"] += 1
            elif what == "touch":
                for root, _, fs in os.walk(d):
                    for f in fs:
                        os.utime(os.path.join(root, f), (st[2], st[2]))
                ctx.fired["times_changed"] += 1
            elif what == "load":
                e = st[3]
                target = d if ld.fmt not in (loads.NSIGHT, loads.CSV) else os.path.join(d, next(iter(ld.files)))
                a = address(st[2], target, ctx, k)
                cwd = os.getcwd()
                old, ld.target = ld.target, lambda a=a: a
                try:
                    with lib.sim(ctx, e["tape"], cores=max(1, int(e["cores"]))):
                        tr = lib.must("loading %s as %r" % (ld.fmt, str(a).replace(ctx.root, "/")), ld.load, pp, e["nproc"], e["cct"])
                finally:
                    ld.target = old
                lib.expect(os.getcwd() == cwd, "directory-changed", "loading changed the current directory")
                try:
                    ld.check(tr, ctx, attrs=True, metrics=True)
                except lib.Violation as v:
                    raise lib.Violation("stale-" + v.kind, "loading %s (trace %d) as %r: %s" % (ld.fmt, i, str(a).replace(ctx.root, "/"), v.msg))
                loaded += 1
                seen.add((i, st[2], d))
                ctx.log("load", i, st[2], len(tr.events))
                ctx.probe("form_" + st[2])
                ctx.probe("fmt_" + ld.fmt)
    finally:
        os.chdir(base)
    ctx.state("history", [[s[0], str(s[1]), str(s[2])] for s in plan["steps"]], [l.fmt for l in lds])
    ctx.probe("loads", loaded)
    ctx.nontrivial = loaded >= 2 and len(seen) > 1


def litter(kind, d, ld):
    """A file that does not belong to the trace, next to the trace's."""
    names = [f for f in ld.files if "/" not in f]
    stem = next((f[:-4] for f in names if f.endswith(".sts")), "traces")

    def put(name, content):
        p = os.path.join(d, name)
        if os.path.exists(p):
            return
        with seams.real_open(p, "wb") as h:
            h.write(content)

    if kind == "sub":
        os.makedirs(os.path.join(d, "analysis"), exist_ok=True)
    elif kind == "backup":
        # (a copy of the whole trace in a directory of its own)
        b = os.path.join(d, "backup")
        if not os.path.exists(b):
            loads.projw_put(b, {k: v[: len(v) // 2] for k, v in ld.files.items()})
    elif kind == "stale_pe":
        # (of an earlier run with more PEs)
        put(stem + ".4711.log.gz", b"\x1f\x8b garbage")
    else:
        put(kind, b"this is not a trace\n1,2,3\n")
