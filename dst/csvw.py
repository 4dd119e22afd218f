"""Nsight report CSVs and generic CSV traces."""
import csv
import io
import math

from . import lib

NV_NAMES = ["main", "forward", "backward pass", "step, one", "quote\"d", "na\u00efve", "a", "b", "cudaLaunch", "x" * 80, "1", "a->b", " lead"]


def gen_nsight(rng):
    nproc = rng.choice([1, 1, 2, 3, 6]) if rng.random() < 0.97 else rng.choice([180, 220, 330])
    shape = rng.choice(["same", "threads", "threads", "mixed", "shared"])
    locs = []
    for p in range(nproc):
        pid = rng.choice([100, 1000, 0, 1, 3]) + p * rng.choice([1, 7]) if rng.random() < 0.6 else rng.randrange(1, 40000)
        if pid in {l[0] for l in locs}:
            pid = 50000 + p
        k = 1 if shape == "same" or nproc > 6 else rng.choice([1, 2, 3, 5])
        if nproc == 1 and shape != "same" and rng.random() < 0.03:
            k = 140
        for t in range(k):
            if shape == "same":
                tid = pid
            elif shape == "shared":
                tid = 7 + t  # the same thread ids in every process
            else:
                tid = pid + t if t or shape == "mixed" else rng.randrange(100000, 200000)
            if (pid, tid) in locs:
                tid = 300000 + t
            locs.append((pid, tid))
    rows = []
    names = rng.sample(NV_NAMES, rng.choice([1, 3, 6]))
    base = rng.choice([0, 1000, 10 ** 15, 1_700_000_000_000_000_000])
    step = rng.choice([[0, 1], [1], [1, 5, 1000], [0, 0, 1], [10 ** 9]])
    same = rng.random() < 0.3
    for l in range(len(locs)):
        t = base + rng.choice([0, 0, 3])
        stack = []
        for _ in range(rng.choice([0, 1, 4, 10, 20]) if l else rng.choice([1, 4, 10, 20])):
            if stack and rng.random() < 0.5:
                rows[stack.pop()][3] = t
            else:
                rows.append([l, rng.choice(names), t, None])
                stack.append(len(rows) - 1)
            t += 0 if same and rng.random() < 0.5 else rng.choice(step)
        while stack:
            rows[stack.pop()][3] = t
            t += 0 if same and rng.random() < 0.5 else rng.choice(step)
    order = rng.choice(["start", "given", "shuffle"])
    if order == "start":
        rows.sort(key=lambda r: r[2])
    elif order == "shuffle":
        rng.shuffle(rows)
    return {"locs": [list(l) for l in locs], "rows": rows, "extra": rng.random() < 0.5}


class Rng:
    __slots__ = ("start", "end", "name", "loc", "extra")

    def __init__(self, start, end, name, loc, extra):
        self.start, self.end, self.name, self.loc, self.extra = start, end, name, loc, extra

    def __repr__(self):
        return "%s %s [%s, %s]" % (self.loc, self.name[:30], self.start, self.end)


class Expect:
    pass


def build_nsight(o):
    ex = Expect()
    ex.ranges = []
    locs = [tuple(l) for l in o["locs"]]
    b = io.StringIO()
    w = csv.writer(b)
    head = ["Start (ns)", "End (ns)", "Duration (ns)", "Name", "PID", "TID"]
    if o["extra"]:
        head += ["RangeStack", "NumChild", "Style"]
    w.writerow(head)
    rows = o["rows"]
    if o.get("times", 1) > 1 and rows:
        # (the same ranges again and again)
        span = max(r[2] if r[3] is None else max(r[2], r[3]) for r in rows) - min(r[2] for r in rows) + 1
        rows = [[l, name, s + k * span, None if e is None else e + k * span] for k in range(int(o["times"])) for l, name, s, e in rows]
    for i, (l, name, s, e) in enumerate(rows):
        loc = locs[l % len(locs)]
        e = s if e is None or e < s else e
        extra = [":%d:%d" % (i, i + 1), i % 4, "PushPop" if i % 3 else "StartEnd"] if o["extra"] else []
        w.writerow([s, e, e - s, name, loc[0], loc[1]] + extra)
        ex.ranges.append(Rng(s, e, name, loc, extra))
    return {"report.csv": b.getvalue().encode("utf-8")}, ex


def check_nsight(ex, df, pids=True):
    n = len(ex.ranges)
    lib.expect(len(df) == 2 * n, "event-count", lambda: "%d events loaded for %d ranges" % (len(df), n))
    ts, k, nm = (lib.col(df, c) for c in ("Timestamp (ns)", "Event Type", "Name"))
    pid, tid = lib.col(df, "PID"), lib.col(df, "TID")
    for i in range(1, len(ts)):
        lib.expect(ts[i] >= ts[i - 1], "not-sorted", lambda: "row %d at %s follows %s" % (i, ts[i], ts[i - 1]))
    extra = [lib.col(df, c) for c in ("RangeStack", "NumChild", "Style")] if ex.ranges and ex.ranges[0].extra else []
    got = {"Enter": [], "Leave": []}
    for i in range(len(df)):
        lib.expect(k[i] in got, "wrong-kind", lambda: "row %d is a %r" % (i, k[i]))
        got[k[i]].append((int(ts[i]), str(nm[i]), int(pid[i]), int(tid[i]), tuple(str(c[i]) for c in extra)))
    for kind, t in (("Enter", "start"), ("Leave", "end")):
        want = sorted((getattr(r, t), r.name, r.loc[0], r.loc[1], tuple(str(x) for x in r.extra)) for r in ex.ranges)
        g = sorted(got[kind])
        lib.expect(g == want, "wrong-" + kind.lower(), lambda: "%s events differ from the ranges' %ss: %s" % (kind, t, [(a, b) for a, b in zip(g, want) if a != b][:1]))
    # identities
    proc = lib.col(df, "Process")
    thread = lib.col(df, "Thread") if "Thread" in df.columns else None
    npid = len({r.loc[0] for r in ex.ranges})
    m, t = {}, {}
    for i in range(len(df)):
        lib.expect(m.setdefault(int(pid[i]), int(proc[i])) == int(proc[i]), "process-split", lambda: "PID %s is process %s and %s" % (pid[i], m[int(pid[i])], proc[i]))
        if thread is not None:
            lib.expect(t.setdefault((int(pid[i]), int(tid[i])), int(thread[i])) == int(thread[i]), "thread-split", lambda: "PID %s TID %s is thread %s and %s" % (pid[i], tid[i], t[(int(pid[i]), int(tid[i]))], thread[i]))
    lib.expect(len(set(m.values())) == len(m) == npid, "process-merged", lambda: "processes %s" % m)
    lib.expect(sorted(m.values()) == list(range(npid)), "process-number", lambda: "processes are not numbered from 0 on: %s" % m)
    if thread is None:
        lib.expect(len({r.loc for r in ex.ranges}) == npid, "thread-merged", "no thread column, but processes have several threads")
    else:
        lib.expect(len({(a, v) for (a, _), v in t.items()}) == len(t), "thread-merged", lambda: "threads %s" % t)
        for p in m:
            mine = sorted(v for (a, _), v in t.items() if a == p)
            lib.expect(mine == list(range(len(mine))), "thread-number", lambda: "the threads of PID %d are not numbered from 0 on: %s" % (p, mine))
    # ranges of one location that enclose each other stay nested
    for i in range(len(df)):
        pass
    idx = {}
    for i in range(len(df)):
        idx.setdefault((int(pid[i]), int(tid[i])), []).append(i)
    for loc, rows in idx.items():
        stack = []
        rs = [r for r in ex.ranges if r.loc == loc]
        if not laminar(rs):
            continue
        for i in rows:
            if k[i] == "Enter":
                stack.append((nm[i], ts[i]))
            else:
                lib.expect(stack and stack[-1][0] == nm[i], "nesting-lost", lambda: "row %d leaves %r while %s are open on %s" % (i, nm[i], stack, loc))
                stack.pop()


def laminar(rs):
    """No two ranges overlap without one enclosing the other (equal ones nest in either
    order)."""
    for i, a in enumerate(rs):
        for b in rs[i + 1:]:
            if a.start < b.start < a.end < b.end or b.start < a.start < b.end < a.end:
                return False
    return True


def gen_csv_opts(rng):
    return {"unit": rng.choice(["ns", "ns", "s", "s"]), "float": rng.random() < 0.3, "thread": rng.random() < 0.5, "space": rng.random() < 0.4,
            "extra": rng.random() < 0.4, "shuffle": rng.random() < 0.3, "crlf": rng.random() < 0.1, "order": rng.choice(["time", "loc"]), "abs": rng.random() < 0.5,
            "ids": rng.choice([[1, 0, 0]] * 4 + [[1, 3, 1], [200, 0, 0], [1, 40000, 70000], [100000, 1, 5000000000]])}


def build_csv(w, o):
    ex = Expect()
    rows = [r for l in w.recs for r in l]
    mul, add, thread = o.get("ids", [1, 0, 0])
    ident = lambda loc: (loc[0] * mul + add, loc[1] + thread)
    if o["order"] == "time":
        rows.sort(key=lambda r: (r.ts, r.seq))
    ex.unit = o["unit"]
    ex.exact = o["unit"] == "ns" and not o["float"]
    base = 0 if o.get("abs") and ex.exact else min([r.ts for r in rows], default=0)
    b = io.StringIO()
    nl = "\r\n" if o["crlf"] else "\n"
    wr = csv.writer(b, quoting=csv.QUOTE_MINIMAL, lineterminator=nl)
    head = ["Timestamp (s)" if o["unit"] == "s" else "Timestamp (ns)", "Event Type", "Name", "Process"]
    if o["thread"]:
        head.append("Thread")
    if o["extra"]:
        head += ["bytes", "note"]
    ex.head = head
    ex.rows = []
    sp = ", " if o["space"] and not any("," in r.n or '"' in r.n for r in rows) else ","
    lines = [sp.join(head)]
    for r in rows:
        t = r.ts - base
        if o["unit"] == "s":
            ts = "%d.%09d" % (t // 10 ** 9, t % 10 ** 9)
        elif o["float"]:
            ts = "%d.0" % t
        else:
            ts = str(t)
        name = r.n.strip() if o["space"] else r.n
        v = [ts, r.k, '"%s"' % name.replace('"', '""') if ("," in name or '"' in name or name != name.strip()) else name, str(ident(r.loc)[0])]
        if o["thread"]:
            v.append(str(ident(r.loc)[1]))
        extra = []
        if o["extra"]:
            extra = [str(r.seq * 8), "n%d" % (r.seq % 3)]
        lines.append(sp.join(v + extra))
        ex.rows.append((t, r.k, name, ident(r.loc), extra))
    return {"trace.csv": (nl.join(lines) + nl).encode("utf-8")}, ex


def check_csv(ex, df):
    n = len(ex.rows)
    lib.expect(len(df) == n, "event-count", lambda: "%d events loaded, the file has %d" % (len(df), n))
    lib.expect("Timestamp (s)" not in df.columns, "seconds-left", "the time in seconds is still there")
    ts, k, nm, pr = (lib.col(df, c) for c in ("Timestamp (ns)", "Event Type", "Name", "Process"))
    th = lib.col(df, "Thread") if "Thread" in ex.head else None
    by, nt = (lib.col(df, "bytes"), lib.col(df, "note")) if "bytes" in ex.head else (None, None)
    # stable: lines with equal times stay in the order of the file
    want = [r for _, r in sorted(enumerate(ex.rows), key=lambda x: (x[1][0], x[0]))]
    for i, (t, kind, name, loc, extra) in enumerate(want):
        ok = math.isclose(float(ts[i]), float(t), rel_tol=1e-15 * 4, abs_tol=1e-6) if ex.unit == "s" else (int(ts[i]) if ex.exact else float(ts[i])) == t
        lib.expect(ok, "wrong-time", lambda: "row %d is at %s ns, recorded %s" % (i, ts[i], t))
        lib.expect(str(k[i]) == kind and str(nm[i]) == name and int(pr[i]) == loc[0] and (th is None or int(th[i]) == loc[1]), "wrong-event",
                   lambda: "row %d is %s %r of process %s thread %s, recorded %s %r of %s" % (i, k[i], nm[i], pr[i], th and th[i], kind, name, loc))
        if by is not None:
            lib.expect(int(by[i]) == int(extra[0]) and nt[i] == extra[1], "wrong-attribute", lambda: "row %d has %s %s, recorded %s" % (i, by[i], nt[i], extra))
