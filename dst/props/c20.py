"""Configuration options are validated registers, also under concurrency."""
from .. import lib, sched
from ..core import Tape

ID = "C20"
RUNS = {"quick": 60000, "thorough": 500000}
RULE = "at least two operations on one option, one of them a successful set, and a rejected operation or several threads"
REAL = ["pipit.util.config", "pipit.get_option/set_option/reset_option"]
STUB = ["thread scheduler (cooperative, preemption at every line of pipit)"]
GOOD = {
    "log_level": ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"],
    "notebook_url": ["http://a", "https://b:1/x", "http://", "http://localhost:8888", "https://"],
    "dst_bool": [True, False], "dst_str": ["", "x", "all"], "dst_int": [0, -5, 7], "depth": [1, 2, 99], "dst_float": [0.0, -1.5, 3.25],
}
BADV = {
    "log_level": ["debug", "", "TRACE", None, 3, "INFO "], "notebook_url": ["ftp://x", "", "localhost", "HTTP://x", None, 8888, " http://x"],
    "dst_bool": [0, 1, "True", None], "dst_str": [1, None, True], "dst_int": [1.0, "1", True, None], "depth": [0, -1, "1", True, None], "dst_float": [1, "1.0", None],
}
UNKNOWN = ["nope", "", None, "LOG_LEVEL", "log-level", " log_level", "ALL", "al", "log_leve", "all"]


def gen_op(rng, keys, threads):
    x = rng.random()
    k = rng.choice(keys)
    if x < 0.35:
        return ["get", k]
    if x < 0.62:
        return ["set", k, rng.choice(GOOD[k])]
    if x < 0.75:
        return ["set", k, rng.choice(BADV[k])]
    if x < 0.85:
        return ["reset", k]
    if x < 0.9:
        return ["reset", "all"]
    return rng.choice([["get", rng.choice(UNKNOWN)], ["set", rng.choice(UNKNOWN), "INFO"], ["reset", rng.choice(UNKNOWN[:-1])]])


def gen(rng, tier):
    keys = rng.choice([["log_level"], ["log_level", "notebook_url"], ["log_level", "notebook_url"], sorted(GOOD)])
    n = rng.choice([1, 1, 2, 3])
    length = rng.choice([3, 6, 12] if n > 1 else [4, 10, 30])
    return {"threads": [[gen_op(rng, keys, n) for _ in range(rng.randrange(1, length + 1))] for _ in range(n)],
            "gaps": [rng.choice([1, 1, 2, 3, 5]) for _ in range(rng.choice([0, 10, 60]))], "tape": [rng.randrange(64) for _ in range(60)]}


def known_keys(pp):
    """The shipped options, and options using each of the other validators."""
    from importlib import import_module

    cfg = import_module("pipit.util.config")
    keys = ["log_level", "notebook_url"]
    reg, glob = getattr(cfg, "registered_options", None), getattr(cfg, "global_config", None)
    if isinstance(reg, dict) and isinstance(glob, dict) and all(isinstance(v, dict) and "validator" in v and "default" in v for v in reg.values()):
        for k, v, d in (("dst_bool", "bool_validator", False), ("dst_str", "str_validator", "d"), ("dst_int", "int_validator", 3), ("depth", "int_validator", 5), ("dst_float", "float_validator", 2.5)):
            if hasattr(cfg, v):
                reg[k] = {"default": d, "validator": getattr(cfg, v)}
                glob[k] = d
                keys.append(k)
    return keys


def linearizable(ops, initial):
    """ops: (start, end, kind, value); kind get/set.  Wing & Gong search."""
    ops = sorted(ops)
    n = len(ops)
    seen = set()

    def go(done, state):
        if len(done) == n:
            return True
        k = (done, state)
        if k in seen:
            return False
        seen.add(k)
        first_end = min(ops[i][1] for i in range(n) if i not in done)
        for i in range(n):
            if i in done or ops[i][0] > first_end:
                continue
            _, _, kind, v = ops[i]
            if kind == "get":
                if repr(v) == state and go(done | {i}, state):
                    return True
            elif go(done | {i}, repr(v)):
                return True
        return False

    return go(frozenset(), repr(initial))


def run(plan, ctx, pp):
    with lib.sim(ctx, ()) as s:
        keys = known_keys(pp)
        default = {k: pp.get_option(k) for k in keys}
        clock = [0]
        hist = []
        rejected = [0]

        def do(op, who):
            clock[0] += 1
            start = clock[0]
            k = op[1]
            kind = op[0]
            unknown = k not in keys and not (kind == "reset" and k == "all")
            val, e = lib.attempt({"get": lambda: pp.get_option(k), "set": lambda: pp.set_option(k, op[2]), "reset": lambda: pp.reset_option(k)}[kind])
            clock[0] += 1
            end = clock[0]
            bad = unknown or (kind == "set" and not any(type(op[2]) is type(v) and op[2] == v for v in GOOD.get(k, [])))
            if bad:
                lib.expect(e is not None, "not-rejected", lambda: "%s was accepted" % (op,))
                rejected[0] += 1
                s.fired["invalid_operation"] += 1
            else:
                lib.expect(e is None, "rejected", lambda: "%s raised %r" % (op, e))
                for kk in (keys if k == "all" and kind == "reset" else [k]):
                    v = val if kind == "get" else op[2] if kind == "set" else default[kk]
                    hist.append((kk, (start, end, "get" if kind == "get" else "set", v), who))
            ctx.log(who, op, val if kind == "get" else None, e)

        if len(plan["threads"]) == 1:
            cur = dict(default)
            for op in plan["threads"][0]:
                before = len(hist)
                do(op, 0)
                for kk, (_, _, kind, v), _ in hist[before:]:
                    if kind == "set":
                        cur[kk] = v
                for kk in keys:
                    got = pp.get_option(kk)
                    lib.expect(repr(got) == repr(cur[kk]), "wrong-value", lambda: "after %s option %s is %r, expected %r" % (op, kk, got, cur[kk]))
        else:
            def body(i):
                def f():
                    for op in plan["threads"][i]:
                        do(op, i)
                return f

            coop = sched.Coop([body(i) for i in range(len(plan["threads"]))], plan["gaps"], Tape(plan["tape"]))
            sched.ACTIVE = coop
            s.line_hook = lambda code, line: coop.point()
            try:
                coop.run()
            finally:
                s.line_hook = None
                sched.ACTIVE = None
            for t in coop.tasks:
                if t.exc is not None:
                    raise t.exc
            s.fired["preemption"] += max(0, len(coop.switches) - len(coop.tasks))
            ctx.state("schedule", coop.switches)
            ctx.hash.append(str(coop.switches))
            for kk in keys:
                ops = [o for k, o, _ in hist if k == kk]
                ops.append((clock[0] + 1, clock[0] + 2, "get", pp.get_option(kk)))
                lib.expect(linearizable(ops, default[kk]), "not-linearizable", lambda: "option %s (default %r): no order of %s explains the values read" % (kk, default[kk], ops))
    ctx.probe("operations", len(hist))
    sets = [h for h in hist if h[1][2] == "set"]
    ctx.state("history", [h[0] + h[1][2] for h in hist])
    ctx.nontrivial = bool(sets) and len(hist) >= 2 and (rejected[0] > 0 or len(plan["threads"]) > 1)
