"""Seeded search over plans, minimisation, replay, evidence."""
import collections
import faulthandler
import gc
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, seams
from .core import HERE, VERIF, HarnessError, InvalidPlan, SimHang, Violation, rng_for

OUT = os.environ.get("DST_OUT") or VERIF
RT = time.time
RSLEEP = time.sleep


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Ctx:
    """What a property's run() sees."""

    def __init__(self, root):
        self.root = root  # scratch directory of this run, ends with a separator
        self.stats = collections.Counter()  # probes
        self.fired = collections.Counter()  # fault kinds that really happened
        self.hash = []
        self.sim_ns = 0
        self.states = set()
        self.nontrivial = False
        self.log_lines = []

    def log(self, *x):
        self.hash.append(core.canon(list(x)))
        if len(self.log_lines) < 400:
            self.log_lines.append(" ".join(str(v) for v in x)[:300])

    def probe(self, name, n=1):
        self.stats[name] += n

    def state(self, *x):
        self.states.add(core.digest(core.canon(list(x))))

    def world(self, w):
        for k, v in w.fired.items():
            self.fired[k] += v
        self.sim_ns += w.sim_ns
        self.state("interleaving", w.trail)

    def sim_done(self, sim):
        for k, v in sim.fired.items():
            self.fired[k] += v
        self.hash.append("|".join(sim.trail))
        if sim.trail:
            self.state("trail", sim.trail)
        self.sim_ns += int((sim.now - 1_700_000_000.0) * 1e9)
        self.stats["pipit_lines"] += sim.lines

    def path(self, name):
        return os.path.join(self.root, name)


class Outcome:
    __slots__ = ("kind", "msg", "digest", "ctx", "tb")


def run_plan(prop, plan, root):
    """Execute one plan; deterministic function of plan and code."""
    os.makedirs(root, exist_ok=True)
    ctx = Ctx(root + os.sep)
    out = Outcome()
    out.kind = out.msg = out.tb = None
    seams.monitor_calls(False)
    try:
        pp = seams.fresh_pipit()
        prop.run(plan, ctx, pp)
    except Violation as v:
        out.kind, out.msg = v.kind, v.msg
        ctx.log("VIOLATION", v.kind)
    except SimHang as h:
        out.kind, out.msg = "hang", str(h)
        out.tb = traceback.format_exc()
    except InvalidPlan:
        out.kind = "invalid"
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError, FileNotFoundError,
            AssertionError, RecursionError, NameError) as e:
        # the oracles read results of pipit; a result they cannot make sense of
        out.kind, out.msg = "malformed-" + type(e).__name__, traceback.format_exc()[-1500:]
    finally:
        seams.end()
        seams.monitor_calls(False)
        shutil.rmtree(root, ignore_errors=True)
    out.digest = core.digest("\n".join(ctx.hash))
    out.ctx = ctx
    return out


def _child(prop_name, tier, seed, idxs, fd, base, w, deadline, stop_first, digests):
    faulthandler.enable()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    res = {"runs": 0, "stats": collections.Counter(), "fired": collections.Counter(), "states": set(), "viol": None,
           "error": None, "samples": [], "distinct": set(), "sim_ns": 0, "digests": {}, "cut": False, "nontrivial": 0}
    try:
        prop = importlib.import_module("dst.props." + prop_name)
        cur = {"plan": None, "i": None}

        def on_alarm(sig, frm):
            raise SimHang("no progress for 150 s of real time inside a single run")

        signal.signal(signal.SIGALRM, on_alarm)
        for n, i in enumerate(idxs):
            if RT() > deadline:
                res["cut"] = True
                break
            plan = prop.gen(rng_for(seed, prop.ID, i), tier)
            plan = json.loads(json.dumps(plan))
            cur["plan"], cur["i"] = plan, i
            signal.alarm(150)
            try:
                out = run_plan(prop, plan, os.path.join(base, "r"))
            finally:
                signal.alarm(0)
            if out.kind == "invalid":
                continue
            res["runs"] += 1
            c = out.ctx
            res["stats"].update(c.stats)
            res["fired"].update(c.fired)
            res["states"] |= c.states
            res["sim_ns"] += c.sim_ns
            if c.nontrivial:
                res["nontrivial"] += 1
                res["distinct"].add(out.digest)
            if digests:
                res["digests"][i] = out.digest
            if len(res["samples"]) < 2 and c.nontrivial:
                res["samples"].append({"i": i, "log": c.log_lines[:12]})
            if out.kind is not None:
                res["viol"] = {"i": i, "plan": plan, "kind": out.kind, "msg": out.msg, "log": c.log_lines[-30:], "tb": out.tb}
                if stop_first:
                    break
            if n % 50 == 49:
                gc.collect()
    except BaseException as e:  # harness failure
        res["error"] = "run %s: %s\n%s" % (cur.get("i") if "cur" in dir() else "?", e, traceback.format_exc())
        res["error_plan"] = cur.get("plan") if "cur" in dir() else None
    data = pickle.dumps(res)
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os._exit(0)


def fan_out(prop_name, tier, seed, n, jobs, base, deadline, stop_first=True, digests=False, start=0):
    kids = []
    for w in range(jobs):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for k in kids:
                os.close(k[1])
            _child(prop_name, tier, seed, range(start + w, start + n, jobs), wfd, os.path.join(base, "w%d" % w), w, deadline, stop_first, digests)
        os.close(wfd)
        kids.append((pid, r, w))
    out = []
    for pid, r, w in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            out.append({"error": "worker %d ended without a result (status %d)" % (w, status), "viol": None})
        else:
            out.append(pickle.loads(data))
    return out


# ---------------------------------------------------------------------- minimising
def _in_child(fn, timeout):
    """fn() in a forked child, so that nothing leaks between attempts."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        signal.alarm(int(timeout))
        try:
            data = pickle.dumps(fn())
        except BaseException as e:
            data = pickle.dumps(("error", repr(e)))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "no result")


def _paths(x, pre=()):
    """Positions of all lists and numbers in a plan, large lists first."""
    lists, nums = [], []
    st = [(x, ())]
    while st:
        v, p = st.pop()
        if isinstance(v, dict):
            for k in v:
                st.append((v[k], p + (k,)))
        elif isinstance(v, list):
            if v:
                lists.append((len(v), p))
            for i, e in enumerate(v):
                st.append((e, p + (i,)))
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int) and v != 0:
            nums.append(p)
    lists.sort(key=lambda t: (len(t[1]), -t[0]))
    return [p for _, p in lists], nums


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def _set(x, p, v):
    x = json.loads(json.dumps(x))
    if not p:
        return v
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


def shrink(plan, fails, deadline):
    """Generic delta debugging over the JSON plan."""
    tries = 0
    improved = True
    while improved and RT() < deadline:
        improved = False
        lists, _ = _paths(plan)
        for p in lists:
            try:
                cur = _get(plan, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            size = len(cur)
            chunk = size
            while chunk >= 1 and RT() < deadline:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + chunk:]
                    q = _set(plan, p, cand)
                    tries += 1
                    if fails(q):
                        plan, cur, improved = q, cand, True
                    else:
                        i += chunk
                    if RT() > deadline:
                        break
                chunk //= 2
        _, nums = _paths(plan)
        for p in nums[:200]:
            if RT() > deadline:
                break
            try:
                v = _get(plan, p)
            except (KeyError, IndexError, TypeError):
                continue
            for c in (0, 1, v // 2):
                if c != v and abs(c) < abs(v):
                    q = _set(plan, p, c)
                    tries += 1
                    if fails(q):
                        plan, improved = q, True
                        break
    return plan, tries


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def prepare(prop=None):
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[k] = "1"
    sys.setrecursionlimit(3000)
    import warnings

    warnings.simplefilter("ignore")
    seams.install()
    if getattr(prop, "STUMPY", False):
        import stumpy  # noqa: F401  (pipit imports it on first use)


def load(prop_name):
    prepare()
    prop = importlib.import_module("dst.props." + prop_name)
    prepare(prop)
    return prop


def check(prop_name, tier, seed, jobs):
    t0 = RT()
    prop = load(prop_name)
    pid = prop.ID
    n = int(os.environ.get("DST_RUNS") or prop.RUNS[tier])
    hard = t0 + (780 if tier == "quick" else 3000)
    base = tempfile.mkdtemp(prefix="dst-%s-" % pid, dir=scratch_base())
    code = 0
    try:
        seams.fresh_pipit()
        extra = prop.setup(seed, tier, base) if hasattr(prop, "setup") else None
        results = fan_out(prop_name, tier, seed, n, jobs, base, hard)
        errors = [r["error"] for r in results if r.get("error")]
        viols = sorted([r["viol"] for r in results if r.get("viol")], key=lambda v: v["i"])
        if errors and not viols:
            sys.stdout.write("HARNESS-ERROR property=%s\n%s\n" % (pid, errors[0]))
            code = 2
        known = [k for k in load_known() if k["property"] == pid]
        reported = 0
        seen = collections.Counter()
        for r in results:
            seen.update(r.get("stats") or {})
        for k in known:
            if k.get("probe") and not seen[k["probe"]]:
                continue
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for v in viols:
            if any(prop_known(prop, k, v) for k in known):
                continue
            path, info = report(prop_name, prop, v, base, seed, tier)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  seed=%s run=%d class=%s" % (seed, v["i"], v["kind"]))
            print("  " + str(v["msg"])[:1500])
            print("  " + info)
            reported += 1
            code = 1
            break
        if any(r.get("cut") for r in results if not r.get("error")) and code == 0:
            print("note: property=%s wall budget reached before all %d planned runs were made" % (pid, n))
        good = [r for r in results if not r.get("error")]
        write_evidence(prop, tier, seed, n, good, RT() - t0, reported, known)
        runs = sum(r["runs"] for r in good)
        print("%s %s: %d runs, %.1f s, exit %d" % (pid, tier, runs, RT() - t0, code))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def prop_known(prop, k, v):
    f = getattr(prop, "known_match", None)
    return bool(f and f(k, v))


def report(prop_name, prop, v, base, seed, tier):
    """Minimise, write the replay file, replay it in a fresh process."""
    pid = prop.ID
    limit = RT() + float(os.environ.get("DST_SHRINK_S", "40"))

    def outcome(plan):
        def go():
            signal.signal(signal.SIGALRM, lambda s, f: (_ for _ in ()).throw(SimHang("no progress")))
            o = run_plan(prop, plan, os.path.join(base, "s"))
            return ("ok", o.kind, o.msg, o.digest, o.ctx.log_lines[-40:])
        return _in_child(go, 160)

    def fails(plan):
        o = outcome(plan)
        return o[0] == "ok" and o[1] == v["kind"]

    plan = v["plan"]
    note = ""
    if fails(plan):
        plan, tries = shrink(plan, fails, limit)
        o = outcome(plan)
        if o[0] == "ok" and o[1] == v["kind"]:
            v["msg"] = o[2]
            note = "minimised in %d attempts" % tries
        else:
            plan = v["plan"]
    else:
        o = ("ok", v["kind"], v["msg"], None, v["log"])
        note = "not minimised: the violation needs the state left by earlier runs of the batch"
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (pid, seed, v["i"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "module": prop_name, "kind": v["kind"], "message": str(v["msg"])[:4000], "seed": seed, "run": v["i"],
                   "digest": o[3], "plan": plan, "log": o[4]}, f, indent=1)
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "--replay", path], capture_output=True, text=True, timeout=200,
                           env=dict(os.environ, DST_NO_REPLAY="1"))
        ok = r.returncode == 1 and ("class=%s" % v["kind"]) in r.stdout
        note += "; replay in a fresh process: " + ("reproduced" if ok else "NOT reproduced (rc=%d)" % r.returncode)
    except subprocess.TimeoutExpired:
        note += "; replay timed out"
    return path, note


def replay(path):
    with open(path) as f:
        j = json.load(f)
    prop = load(j["module"])
    base = tempfile.mkdtemp(prefix="dst-replay-", dir=scratch_base())
    try:
        if hasattr(prop, "setup"):
            prop.setup(j.get("seed", 1), "quick", base)
        o = run_plan(prop, j["plan"], os.path.join(base, "s"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for l in o.ctx.log_lines:
        print("  . " + l)
    if o.kind and o.kind != "invalid":
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        print("  class=%s digest=%s same_digest=%s" % (o.kind, o.digest, o.digest == j.get("digest")))
        print("  " + str(o.msg)[:3000])
        return 1
    print("replay: no violation (%s)" % o.kind)
    return 0


def write_evidence(prop, tier, seed, n, good, wall, violations, known):
    runs = sum(r["runs"] for r in good)
    stats, fired = collections.Counter(), collections.Counter()
    states, distinct = set(), set()
    sim_ns = nontrivial = 0
    samples = []
    for r in good:
        stats.update(r["stats"])
        fired.update(r["fired"])
        states |= r["states"]
        distinct |= r["distinct"]
        sim_ns += r["sim_ns"]
        nontrivial += r["nontrivial"]
        samples += r["samples"]
    samples.sort(key=lambda s: s["i"])
    ev = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": prop.RULE,
            "samples": samples[:4] or [{"note": "no non-trivial run"}],
            "runs_planned": n,
            "nontrivial_runs": nontrivial,
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "seeds_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "simulated_time_s": round(sim_ns / 1e9, 6),
            "faults_injected": dict(sorted(fired.items())),
            "distinct_states": len(states),
            "state_measure": "distinct digests of (program interleaving | worker/disk schedule | thread switch sequence | operation history) reached",
            "probes": dict(sorted(stats.items())),
            "components_real": prop.REAL,
            "components_stubbed": prop.STUB,
            "known_findings": len(known),
        },
        "assumptions": getattr(prop, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop.ID + ".json"))


# ------------------------------------------------------------------------- self-test
def digests_of(prop_name, seed, n, jobs):
    base = tempfile.mkdtemp(prefix="dst-self-", dir=scratch_base())
    try:
        prop = load(prop_name)
        if hasattr(prop, "setup"):
            prop.setup(seed, "quick", base)
        out = {}
        for r in fan_out(prop_name, "quick", seed, n, jobs, base, RT() + 600, digests=True, stop_first=False):
            if r.get("error"):
                raise HarnessError(r["error"])
            out.update(r["digests"])
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)


def selftest(args):
    """The same seeds give the same executions: across repetitions, numbers of harness
    processes and hash seeds."""
    if args[:1] == ["--digests"]:
        d = digests_of(args[1], int(args[2]), int(args[3]), int(args[4]))
        print("DIGESTS " + json.dumps(d, sort_keys=True))
        return 0
    names = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("c") and f.endswith(".py"))
    bad = 0
    for name in names:
        got = []
        for seed, hs, jobs in ((7, "0", 8), (7, "0", 3), (7, "12345", 8)):
            env = dict(os.environ, DST_HASHSEED=hs)
            env.pop("DST_CHILD", None)
            r = subprocess.run([os.path.join(VERIF, "run.py"), "--selftest", "--digests", name, str(seed), "120", str(jobs)], capture_output=True, text=True, env=env)
            line = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS ")]
            got.append(json.loads(line[0][8:]) if line else {"error": r.stdout[-800:]})
        diff = [k for k in got[0] if any(g.get(k) != got[0][k] for g in got[1:])]
        ok = not diff and "error" not in got[0]
        bad += not ok
        print("%s: %d runs x %d executions: %s" % (name, len(got[0]), len(got), "identical" if ok else "DIFFER " + str((got[0].get("error") or sorted(diff, key=int)[:10]))))
    return 1 if bad else 0
