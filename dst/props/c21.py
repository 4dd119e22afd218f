"""Chrome export: complete or failing."""
import copy
import json
import os
import pathlib

import numpy as np

from .. import frames, lib, seams

ID = "C21"
RUNS = {"quick": 4500, "thorough": 100000}
RULE = "an export with a storage fault that really happened, or of an execution with several locations"
REAL = ["pipit.writers.chrome_writer", "pipit.trace.Trace.to_chrome", "pandas JSON writer and file handles"]
STUB = ["traced program (simulated)", "disk (simulated: full, failing, short writes, failing open and close)"]
RICH = frames.RICH + [{"tiny": 1e-12 / 3, "third": 1 / 3, "large": 123456789.12345678, "deep": [{"x": 2e-11}]}]
FAULTS = [None, None, "space", "space", "space", "write", "close", "open", "short", "missing-dir", "is-dir"]


def gen(rng, tier):
    p = lib.gen_case(rng, tier, lengthy=0.006, max_len=40)
    p["tries"] = []
    for _ in range(rng.choice([1, 1, 2])):
        p["tries"].append({"fault": rng.choice(FAULTS), "at": rng.choice([0, 1, 2, 50, rng.randrange(0, 9000)]), "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "pathlib": rng.random() < 0.2, "old": rng.random() < 0.3})
    p["text"] = rng.random() < 0.3
    p["extra"] = rng.random() < 0.4
    return p


def same(a, b):
    """Equal; floating-point numbers to the 15 decimal places that the JSON writer has."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, float) and isinstance(a, (int, float)) and not isinstance(a, bool):
        return a == b or abs(a - b) <= 1e-15 + 2e-14 * abs(b)
    return a == b


def verify(text, c, attrs, what):
    try:
        j = json.loads(text)
    except ValueError as e:
        raise lib.Violation("invalid-json", "%s: %s (%d characters)" % (what, e, len(text)))
    lib.expect(isinstance(j, list) and len(j) == len(c.rows), "incomplete", lambda: "%s holds %s records for %d events" % (what, len(j), len(c.rows)))
    for i, (g, r) in enumerate(zip(j, c.rows)):
        lib.expect(g["name"] == r.n and g["ph"] == {"Enter": "B", "Leave": "E", "Instant": "i"}.get(r.k, g["ph"]), "wrong-record", lambda: "%s record %d is %s, event is %r" % (what, i, g, r))
        lib.expect(abs(g["ts"] - r.ts / 1000) < 1 + 2 * np.spacing(r.ts / 1000), "wrong-time", lambda: "%s record %d has ts %s, event at %s ns" % (what, i, g["ts"], r.ts))
        lib.expect(g["pid"] == r.loc[0] and (not c.thread or g["tid"] == r.loc[1]), "wrong-location", lambda: "%s record %d is %s, event is %r" % (what, i, g, r))
        if attrs is not None:
            a = g.get("args")
            lib.expect(same(a, attrs[i]) or (a is None and not attrs[i] and attrs[i] != {}), "wrong-attributes", lambda: "%s record %d has args %s, recorded %s" % (what, i, a, attrs[i]))


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]) as s:
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        attrs = None
        if "Attributes" in c.trace.events.columns:
            attrs = c.trace.events["Attributes"].tolist()
            if plan["extra"]:
                for i in range(0, len(attrs), 3):
                    attrs[i] = copy.deepcopy(RICH[(i // 3) % len(RICH)])
                c.trace.events["Attributes"] = attrs
            attrs = json.loads(json.dumps([a if isinstance(a, dict) else None for a in attrs]))
        before = lib.fingerprint(c.trace.events)
        failed = 0
        for k, t in enumerate(plan["tries"]):
            path = ctx.path("out%d.json" % k)
            f = t["fault"]
            if t["old"]:
                with lib.suspended(), seams.real_open(path, "w") as fh:
                    fh.write("x" * 20000)
            s.faults, s.write_budget = [], None
            if f == "space":
                s.write_budget = int(t["at"])
            elif f in ("write", "open", "close"):
                s.faults = [{"op": f, "path": os.path.basename(path), "n": 1 if f != "write" else 1 + int(t["at"]) % 3, "err": t["err"]}]
            elif f == "short":
                s.faults = [{"op": "write", "path": os.path.basename(path), "n": 1, "err": "SHORT", "len": 1 + int(t["at"]), "once": True}]
            elif f == "missing-dir":
                path = ctx.path("no/dir/out.json")
            elif f == "is-dir":
                path = ctx.path("adir")
                os.makedirs(path, exist_ok=True)
            arg = pathlib.Path(path) if t["pathlib"] else path
            fired = sum(v for n, v in s.fired.items() if n.startswith("disk_"))
            _, e = lib.attempt(c.trace.to_chrome, arg)
            hits = sum(v for n, v in s.fired.items() if n.startswith("disk_")) - fired
            s.faults, s.write_budget = [], None
            ctx.log("export", f, t["at"], type(e).__name__ if e else "ok", hits)
            if e is None:
                lib.expect(f not in ("missing-dir", "is-dir"), "no-error", lambda: "export to an unusable path (%s) returned" % f)
                lib.expect(not (f == "close" and hits), "swallowed-error", "closing the file failed, the export returned")
                lib.expect(os.path.exists(path), "no-file", "the export returned, but there is no file")
                with seams.real_open(path, encoding="utf-8") as fh:
                    verify(fh.read(), c, attrs, "exported file (fault: %s, hit %d times)" % (f, hits))
            else:
                failed += 1
                if f in ("missing-dir", "is-dir"):
                    s.fired["bad_path"] += 1
                lib.expect(hits > 0 and f != "short" or f in ("missing-dir", "is-dir"), "spurious-error", lambda: "export to healthy storage raised %r" % e)
            lib.expect(lib.fingerprint(c.trace.events) == before, "altered", "the export changed the trace")
        path = ctx.path("final.json")
        if plan["text"]:
            text = lib.must("to_chrome()", c.trace.to_chrome)
            lib.expect(isinstance(text, str), "no-text", "to_chrome() returned %r" % type(text))
        else:
            lib.must("to_chrome(path) on healthy storage", c.trace.to_chrome, path)
            with seams.real_open(path, encoding="utf-8") as fh:
                text = fh.read()
        verify(text, c, attrs, "export")
        lib.expect(lib.fingerprint(c.trace.events) == before, "altered", "the export changed the trace")
        ctx.log("final", len(text))
    ctx.probe("failed_exports", failed)
    ctx.nontrivial = failed > 0 or len({r.loc for r in c.rows}) > 1
