"""Discrete-event simulation of a traced parallel program.

A world plan is JSON: locations [[process, thread], ...], one script of operations per
location, a clock per location, a tape deciding the interleaving and message delays and
tracer faults (crash, late attach, lost record ranges).  simulate() executes it and
returns, per location, the records the tracer wrote, together with the ground truth of
which enter and leave belong to the same call.
"""
from .core import Tape

NAMES = ["main", "foo", "bar", "solve", "compute", "MPI_Send", "MPI_Recv", "MPI_Wait", "MPI_Waitall", "MPI_Isend",
         "Idle", "a", "b", "c", "a->b", "b->c", "->", "a->", "operator->", "int main(int, char**)", "f<x, y>", "na\u00efve",
         "foo.bar", "foo bar", " lead", "x" * 60, "Enter", "Leave", "0", "nan_f", "A", "\u03bb"]

ALIKE = ["foo", "foo ", "Foo", "FOO", "foo\u0301", "f\u00f3o", "fo\u00f3", "foo()", "foo(int)", "p" * 64 + "a", "p" * 64 + "b", "p" * 255 + "a", "p" * 255 + "b", "fooo"]


def gen_names(rng):
    mode = rng.random()
    if mode > 0.95:
        return rng.sample(ALIKE, rng.choice([2, 4, 8]))
    if mode < 0.25:
        pool = ["a", "b", "c", "a->b", "b->c", "->", "a->", "operator->"]
    elif mode < 0.55:
        pool = ["main", "foo", "bar", "MPI_Send", "MPI_Recv", "MPI_Wait", "MPI_Waitall", "Idle", "solve"]
    else:
        pool = NAMES
    k = rng.choice([1, 2, 3, 4, 6, 9])
    return rng.sample(pool, min(k, len(pool)))


def gen_script(rng, names, length, p, nproc, me):
    """p: dict of swarm knobs"""
    ops = []
    depth = 0
    while len(ops) < length:
        x = rng.random()
        if x < p["call"] and depth < p["maxdepth"]:
            ops.append(["c", rng.choice(names)])
            depth += 1
        elif x < p["call"] + p["ret"]:
            if depth:
                if rng.random() < p["cross"]:
                    ops.append(["x", rng.choice([1, 1, 2])])
                else:
                    ops.append(["r"])
                depth -= 1
        elif x < p["call"] + p["ret"] + p["msg"] and nproc > 1:
            d = rng.randrange(nproc)
            if d == me and rng.random() < 0.8:
                d = (d + 1) % nproc
            ops.append(["s" if rng.random() < 0.7 else "i", d, rng.choice([0, 1, 8, 1024, 65536, 3000000001, (1 << 24) + 1, (1 << 40) + 1 if rng.random() < 0.3 else 3, rng.randrange(1, 5000)])])
        elif x < p["call"] + p["ret"] + p["msg"] * 1.6 and nproc > 1:
            ops.append(["v" if rng.random() < 0.6 else "u", rng.randrange(nproc)])
        elif x < 0.93:
            ops.append(["w", rng.choice(p["works"])])
        else:
            ops.append(["m", rng.choice(["marker", "ThreadTeamBegin", "MpiCollectiveEnd", "Trace"])])
    return ops


def gen_world(rng, max_procs=5, max_threads=3, max_len=30, faults=True, messages=True, threads=None, zero_ok=True, big=0.06, cross=True):
    nproc = rng.choice([1, 1, 2, 2, 3, 4, max_procs])
    if rng.random() < big:
        nproc = rng.randrange(6, 15)
    th = (rng.random() < 0.5) if threads is None else threads
    locs = []
    for r in range(nproc):
        k = rng.randrange(1, max_threads + 1) if th else 1
        for t in range(k):
            locs.append([r, t])
    works = rng.choice([[1], [0, 1], [1, 2, 5], [0, 0, 0, 1], [10, 100, 1000], [1, 1000000], [7, 13, 29, 101], [100000, 123457], [1, 16777217, 4294967311]])
    if not zero_ok:
        works = [w or 1 for w in works]
    p = {
        "call": rng.choice([0.25, 0.35, 0.5]),
        "ret": rng.choice([0.15, 0.3, 0.35]),
        "msg": rng.choice([0, 0.08, 0.15]) if messages else 0,
        "maxdepth": rng.choice([1, 2, 4, 8, 20]),
        "works": works,
        # regions that overlap instead of being nested (asynchronous ones)
        "cross": rng.choice([0, 0, 0, 0, 0, 0, 0, 0.3]) if cross else 0,
    }
    names = gen_names(rng)
    spmd = rng.random() < 0.35
    length = rng.choice([1, 3, 6, 12, max_len])
    if nproc > 6:
        length = min(length, 12)
    scripts = []
    shared = gen_script(rng, names, length, p, nproc, 0)
    for r, t in locs:
        if spmd and t == 0:
            s = [list(o) for o in shared]
            if rng.random() < 0.4 and s:
                del s[rng.randrange(len(s))]
        elif rng.random() < 0.05:
            s = []
        else:
            s = gen_script(rng, names, rng.randrange(1, length + 1), p, nproc, r)
        if rng.random() < 0.7 and s:
            s = [["c", names[0]]] + s
        scripts.append(s)
    if max_len >= 14 and rng.random() < 0.02:
        # one location is deep (and may lose the records of many returns), or wide
        l = rng.randrange(len(locs))
        if rng.random() < 0.6:
            d = rng.randrange(9, 70) if rng.random() < 0.8 else rng.randrange(129, 300)
            s = [["c", rng.choice(names)] for _ in range(d)] + [["w", 3]] + [["r"]] * rng.randrange(d + 1)
            scripts[l] = s + [["c", rng.choice(names)], ["w", 2], ["r"]] * rng.randrange(3)
        else:
            d = 0
            scripts[l] = [["c", names[0]]] + [o for _ in range(rng.randrange(257, 330)) for o in (["c", rng.choice(names)], ["w", rng.choice(works)], ["r"])] + [["r"]]
            for i in range(len(scripts)):
                if i != l:
                    scripts[i] = scripts[i][:6]
        faulty = [["lost", l, d + rng.randrange(0, 4), rng.randrange(1, d + 1)]] if d and faults and rng.random() < 0.7 else []
    else:
        faulty = []
    w = {
        "locs": locs,
        "scripts": scripts,
        "clock": {
            "gran": rng.choice([1, 1, 1, 2, 10, 1000, 10 ** 9]),
            "base": rng.choice([0, 0, 5, 1000000007, 1_650_000_000_000_000_000 if rng.random() < 0.3 else 12345]),
            "skew": [rng.choice([0, 0, 0, 1, 3, rng.randrange(0, 2000)]) for _ in locs],
            "step": rng.choice([0, 1, 1, 3]) if zero_ok else rng.choice([1, 3]),
        },
        "tape": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 10, 200]))],
        "faults": faulty,
    }
    if faults and not faulty and rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2, 3])):
            l = rng.randrange(len(locs))
            n = max(1, 2 * len(scripts[l]))
            kind = rng.choice(["crash", "crash", "late", "lost", "lost"])
            a = rng.randrange(n)
            if kind == "lost":
                w["faults"].append([kind, l, a, rng.choice([1, 1, 2, 3, 6])])
            else:
                w["faults"].append([kind, l, a])
    return w


class Rec:
    __slots__ = ("ts", "k", "n", "cid", "a", "seq", "loc")

    def __init__(self, ts, k, n, cid, a, seq, loc):
        self.ts, self.k, self.n, self.cid, self.a, self.seq, self.loc = ts, k, n, cid, a, seq, loc

    def __repr__(self):
        return "%s %s@%s %s" % (self.loc, self.k, self.ts, self.n)


class World:
    pass


def simulate(plan, close_open=True):
    tape = Tape(plan["tape"])
    locs = [tuple(l) for l in plan["locs"]]
    ck = plan["clock"]
    n = len(locs)
    time = [0] * n
    pc = [0] * n
    stack = [[] for _ in range(n)]
    recs = [[] for _ in range(n)]
    last = [None] * n
    done = [False] * n
    phase = [None] * n
    chan = {}
    st = {"seq": 0, "cid": 0}
    msgs_sent, msgs_recv = [], []
    trail = []

    def emit(l, k, name, cid=None, a=None):
        ts = ck["base"] + (time[l] + ck["skew"][l % len(ck["skew"])]) // ck["gran"] * ck["gran"]
        if last[l] is not None and ts < last[l]:
            ts = last[l]
        last[l] = ts
        recs[l].append(Rec(ts, k, name, cid, a, st["seq"], locs[l]))
        st["seq"] += 1
        time[l] += ck["step"]

    def enter(l, name):
        st["cid"] += 1
        stack[l].append((name, st["cid"]))
        emit(l, "Enter", name, st["cid"])

    def leave(l, below=0):
        name, cid = stack[l].pop(-1 - min(below, len(stack[l]) - 1))
        emit(l, "Leave", name, cid)

    scripts = [_unroll(x) for x in plan["scripts"]]
    steps = 0
    limit = 5000 + 4 * sum(max(0, len(a) - len(b)) for a, b in zip(scripts, plan["scripts"]))
    while steps < limit:
        steps += 1
        runnable = []
        for l in range(n):
            if done[l]:
                continue
            if phase[l] is not None and not chan.get((phase[l][1], locs[l][0])):
                continue
            runnable.append(l)
        if not runnable:
            break
        l = runnable[tape.choose(len(runnable))]
        trail.append(l)
        me = locs[l][0]
        if phase[l] is not None:
            kind, src = phase[l]
            t, size, tag = chan[(src, me)].pop(0)
            phase[l] = None
            time[l] = max(time[l], t)
            nm = "MpiRecv" if kind == "v" else "MpiIrecv"
            a = {"sender": src, "communicator": "Comm 0", "msg_tag": tag, "msg_length": size}
            if kind == "u":
                a["request_id"] = tag
            emit(l, "Instant", nm, None, a)
            msgs_recv.append((src, me, size))
            leave(l)
            continue
        if pc[l] >= len(scripts[l]):
            if close_open and stack[l]:
                leave(l)
            else:
                done[l] = True
            continue
        op = scripts[l][pc[l]]
        pc[l] += 1
        c = op[0]
        if c == "c":
            enter(l, op[1])
        elif c == "r":
            if stack[l]:
                leave(l)
        elif c == "x":
            if stack[l]:
                leave(l, max(0, int(op[1])))
        elif c == "w":
            time[l] += int(op[1])
        elif c in ("s", "i"):
            enter(l, "MPI_Send" if c == "s" else "MPI_Isend")
            dst, size = int(op[1]), int(op[2])
            tag = pc[l]
            a = {"receiver": dst, "communicator": "Comm 0", "msg_tag": tag, "msg_length": size}
            if c == "i":
                a["request_id"] = tag
            emit(l, "Instant", "MpiSend" if c == "s" else "MpiIsend", None, a)
            lat = [0, 1, 5, 50, 5000][tape.choose(5)]
            chan.setdefault((me, dst), []).append((time[l] + lat, size, tag))
            msgs_sent.append((me, dst, size))
            leave(l)
        elif c in ("v", "u"):
            enter(l, "MPI_Recv" if c == "v" else "MPI_Wait")
            phase[l] = (c, int(op[1]))
        elif c == "m":
            emit(l, "Instant", op[1], None, {"note": st["seq"]})
        else:
            raise ValueError(op)
    w = World()
    w.locs = locs
    w.full = [list(r) for r in recs]
    w.fired = {}
    for f in plan.get("faults", []):
        l = f[1] % n
        r = recs[l]
        if f[0] == "crash" and f[2] < len(r):
            w.fired["tracee_crash"] = w.fired.get("tracee_crash", 0) + 1
            recs[l] = r[: f[2]]
        elif f[0] == "late" and len(r):
            w.fired["late_attach"] = w.fired.get("late_attach", 0) + 1
            recs[l] = r[f[2]:]
        elif f[0] == "lost" and f[2] < len(r):
            w.fired["lost_records"] = w.fired.get("lost_records", 0) + 1
            recs[l] = r[: f[2]] + r[f[2] + f[3]:]
    w.recs = recs
    if any(phase):
        w.fired["program_deadlock"] = 1
    w.trail = trail
    w.sim_ns = max(time) if time else 0
    w.nested = not any(f[0] == "lost" for f in plan.get("faults", []))
    return w


def _unroll(script):
    """A script with its repeated parts (["R", times, operations]) written out."""
    out = []
    for o in script:
        if o[0] == "R":
            out += list(o[2]) * max(0, min(int(o[1]), 20000))
        else:
            out.append(o)
    return out


def lengthy(rng, w):
    """One location executes its script thousands of times."""
    l = rng.randrange(len(w["scripts"]))
    part = [o for o in w["scripts"][l] if o[0] not in ("v", "u")][:20]
    if not any(o[0] == "c" for o in part):
        part = [["c", "main"], ["w", 1], ["r"]] + part
    # (what is called in a repetition returns in it)
    part += [["r"]] * max(0, sum(o[0] == "c" for o in part) - sum(o[0] == "r" for o in part))
    n = rng.choice([1100, 2300, 4200, 9000]) // len(part) + 1
    w["scripts"][l] = [["c", "main"], ["R", n, part], ["r"]]
    return w


def wide(rng, w, threads=True):
    """Few events on very many processes, or on very many threads of a process."""
    n = rng.choice([129, 140, 257, 300])
    if threads and rng.random() < 0.5:
        k = rng.choice([0, 0, 3])
        w["locs"] = [[0, t] for t in range(n - k)] + [[1, t] for t in range(k)]
    else:
        w["locs"] = [[r, 0] for r in range(n)]
    src = [[o for o in s if o[0] not in ("v", "u")][:4] for s in w["scripts"]] or [[]]
    names = [o[1] for s in src for o in s if o[0] == "c"] or ["main"]
    w["scripts"] = []
    for l in w["locs"]:
        s = [list(o) for o in rng.choice(src)] if rng.random() < 0.5 else [["c", rng.choice(names)], ["w", 1]]
        for o in s:
            if o[0] in ("s", "i"):
                o[1] = rng.choice(w["locs"])[0]
        w["scripts"].append(s)
    w["faults"] = w["faults"][:1]
    return w


def sparse(rng, w):
    """The same program on ranks that are not numbered consecutively (a selection of
    the ranks of a bigger program)."""
    mul, add = rng.choice([[1, 1], [3, 2], [1, 130], [64, 0]])
    f = lambda r: r * mul + add
    w["locs"] = [[f(r), t] for r, t in w["locs"]]
    for s in w["scripts"]:
        for o in s:
            for q in o[2] if o[0] == "R" else [o]:
                if q[0] in ("s", "i", "v", "u"):
                    q[1] = f(q[1])
    return w


def merged(w, order="seq", tape=None):
    """All records in table order: by time, ties between locations in any order, a
    location's own records in program order."""
    if order == "seq":
        key = lambda r: (r.ts, r.seq)
        rows = [r for l in w.recs for r in l]
        # seq order is consistent with program order per location
        return sorted(rows, key=key)
    heads = [list(l) for l in w.recs]
    pos = [0] * len(heads)
    out = []
    while True:
        cand = [i for i in range(len(heads)) if pos[i] < len(heads[i])]
        if not cand:
            return out
        m = min(heads[i][pos[i]].ts for i in cand)
        tied = [i for i in cand if heads[i][pos[i]].ts == m]
        i = tied[tape.choose(len(tied))]
        out.append(heads[i][pos[i]])
        pos[i] += 1
