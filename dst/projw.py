"""Writes the records of a simulated execution as Projections logs (sts file and one
gzipped log per PE), and says what a faithful reader has to return."""
import gzip
import io
import math
import os
import re

from . import lib, seams

BCAST = 20


def gen_opts(rng, tier="quick"):
    return {
        "exe": rng.choice(["exe", "exe", "my.prog", "a b", "pgm.prj", "pgm.prj", "app.v1.2.prj", "run.0", "x.sts", "x.log.gz", ".app", "a[1]*", "pro\u00e9", "-p"]),
        "papi": rng.choice([0, 0, 0, 1, 2]),
        "dims": [rng.choice([-1, -1, 0, 1, 2, 3, 6]) for _ in range(4)],
        "kinds": [rng.choice([2, 2, 2, 14, 16, 18, 8, 98, 11]) for _ in range(9)],
        "instants": [rng.choice([13, 100, 28, 29, 27, 32, 26, 4, 5, 10, 20, 13, 27]) for _ in range(8)],
        "bcast": rng.random() < 0.3,
        "multi": rng.random() < 0.4,
        "empty_ok": rng.random() < 0.3,
        "rev": rng.random() < 0.2,
        "gz": rng.choice([0, 1, 6, 9]),
        "late": [rng.random() < 0.3 for _ in range(3)] if rng.random() < 0.15 else [],
        "t0": rng.choice([0, 0, 0, 1, 10 ** 6 + 1, 9 * 10 ** 12 + 1, 10 ** 15 + 3]),
    }


ENTRY_NAMES = ["main()", "recv(Msg* m)", "start(const bool &b)", "f", "exchange(int a, int b)", "g()", "step", "x y z", "done()", "l\u00f6se(\u03bb)", "f", "recv(Msg* m)"]
CHARES = ["Main", "Array1", "Group", "Node Group", "Gr\u00fcppe"]
EVENTS = {3: "compute", 5: "a user event", 11: "io", 40: "long  name".replace("  ", " "), 41: "\u00e9tape"}
STATS = {2: "flops", 7: "cache misses"}


class Row:
    __slots__ = ("ts", "k", "n", "loc", "attrs", "code", "rec", "alt")

    def __init__(self, ts, k, n, loc, attrs, code, rec):
        self.ts, self.k, self.n, self.loc, self.attrs, self.code, self.rec = ts, k, n, loc, attrs, code, rec
        self.alt = ts

    def __repr__(self):
        return "PE %s %s@%s %s (record %s)" % (self.loc, self.k, self.ts, self.n, self.code)


class Expect:
    pass


def sts_text(n, o):
    out = ["PROJECTIONS_ID ", "VERSION 11.0", "TOTAL_PHASES 1", 'MACHINE "mpi"', "PROCESSORS %d" % n, 'USERNAME "u"', 'COMMANDLINE "./a b"',
           "TIMESTAMP 2022-11-11T16:12:02Z", "CHARMVERSION v7.0.0", "TOTAL_CHARES %d" % len(CHARES), "TOTAL_EPS %d" % len(ENTRY_NAMES),
           "TOTAL_MSGS 2", "TOTAL_PSEUDOS 0", "TOTAL_EVENTS %d" % len(EVENTS)]
    turn = (lambda x: list(x)[::-1]) if o.get("rev") else list
    for i, c in turn(enumerate(CHARES)):
        out.append('CHARE %d "%s" %d' % (i, c, o["dims"][i % len(o["dims"])] if o["dims"] else -1))
    for i, e in turn(enumerate(ENTRY_NAMES)):
        out.append('ENTRY CHARE %d "%s" %d %d' % (i, e, i % len(CHARES), i % 2))
    out += ["MESSAGE 0 40", "MESSAGE 1 8"]
    for i, e in turn(EVENTS.items()):
        out.append("EVENT %d %s" % (i, e))
    out.append("TOTAL_STATS %d" % len(STATS))
    for i, e in STATS.items():
        out.append("STAT %d %s" % (i, e))
    if o["papi"]:
        out.append("TOTAL_PAPI_EVENTS %d" % o["papi"])
        for i in range(o["papi"]):
            out.append("PAPI_EVENT %d PAPI_%d" % (i, i))
    out.append("END")
    return "\n".join(out) + "\n"


def _zip(text, level):
    b = io.BytesIO()
    with gzip.GzipFile(filename="", fileobj=b, mode="wb", compresslevel=level, mtime=0) as g:
        g.write(text.encode())
    return b.getvalue()


def dim_of(entry, o):
    d = o["dims"][(entry % len(CHARES)) % len(o["dims"])] if o["dims"] else -1
    return 4 if d == -1 else d


def build(w, o, crashed=()):
    """{file name: content} and the expectation.  crashed: PEs whose log ends without
    the closing record."""
    ex = Expect()
    files = {}
    ex.exe = o["exe"]
    n = max(l[0] for l in w.locs) + 1
    files[o["exe"] + ".sts"] = sts_text(n, o).encode()
    # (microseconds since the start of the program, or since something else)
    base = min([r.ts for l in w.recs for r in l], default=0) - max(0, int(o.get("t0", 0)))
    ex.pes = []
    ex.crashed = set()
    for pe in range(n):
        rows, lines = [], []
        i = [j for j, l in enumerate(w.locs) if l == (pe, 0)]
        recs = w.recs[i[0]] if i else []
        silent = not recs and o.get("empty_ok")
        late = o.get("late") or []  # (tracing started after the computation)
        if not silent and not (late and late[pe % len(late)] and pe not in crashed):
            t0 = (recs[0].ts - base) if recs else 0
            lines.append("6 %d" % t0)
            rows.append(Row(t0, "Enter", "Computation", pe, None, 6, 0))
        for r in recs:
            _record(r, r.ts - base, pe, n, o, lines, rows)
        crash = pe in crashed and not silent
        if not silent and not crash:
            t1 = max([r.ts for r in rows if r.code != 26] or [0]) + (pe % 3)
            lines.append("7 %d" % t1)
            rows.append(Row(t1, "Leave", "Computation", pe, None, 7, len(lines)))
        if crash:
            ex.crashed.add(pe)
        text = "PROJECTIONS-RECORD %d\n" % len(lines) + "".join(l + "\n" for l in lines)
        files["%s.%d.log.gz" % (o["exe"], pe)] = _zip(text, o["gz"])
        # a table is sorted by time, ties in recorded order
        rows = [r for _, r in sorted(enumerate(rows), key=lambda x: (x[1].ts, x[0]))]
        if crash:
            rows.append(Row(max([r.ts for r in rows if r.code != 26] or [0]), "Leave", "Computation", pe, None, "crash", len(lines) + 1))
            # (or of the last record that is not the creation of a broadcast)
            rows[-1].alt = max([r.ts for r in rows[:-1] if r.code not in (26, BCAST)] or [0])
        ex.pes.append(rows)
    return files, ex


def _record(r, t, pe, n, o, lines, rows):
    q = r.seq
    def row(ts, k, name, attrs, code):
        rows.append(Row(ts, k, name, pe, attrs, code, len(lines)))
    if r.k in ("Enter", "Leave"):
        kind = o["kinds"][hash_name(r.n) % len(o["kinds"])] if o["kinds"] else 2
        ent = r.k == "Enter"
        cid = r.cid or 0
        if kind == 2:
            e = hash_name(r.n) % len(ENTRY_NAMES)
            src = cid % n
            ids = [cid % 5 + d for d in range(dim_of(e, o))]
            papi = [q * 10 + d for d in range(o["papi"])]
            if ent:
                lines.append("2 " + " ".join(map(str, [cid % 7, e, t, cid, src, 64 + cid, max(0, t - 1)] + ids + [t * 2] + papi)))
                row(t, "Enter", ENTRY_NAMES[e], {"From PE": src, "Message Type": cid % 7, "Event ID": cid, "Message Length": 64 + cid,
                                                 "Receive Time": [max(0, t - 1), 1000 * max(0, t - 1)], "ID List": ids, "CPU Start Time": [t * 2, t * 2000], "perf counts list": papi}, 2)
            else:
                lines.append("3 " + " ".join(map(str, [cid % 7, e, t, cid, src, 64 + cid, t * 2] + papi)))
                row(t, "Leave", ENTRY_NAMES[e], None, 3)
        elif kind in (14, 16, 18):
            c = kind if ent else kind + 1
            lines.append("%d %d %d" % (c, t, pe))
            row(t, r.k, {14: "Idle", 16: "Pack", 18: "Unpack"}[kind], {"From PE": pe} if ent else None, c)
        elif kind == 8:
            c = 8 if ent else 9
            lines.append("%d %d %d %d" % (c, t, cid, pe))
            row(t, r.k, "Interrupt", {"From PE": pe, "Event ID": cid} if ent else None, c)
        elif kind == 98:
            c = 98 if ent else 99
            ue = sorted(EVENTS)[cid % len(EVENTS)]
            lines.append("%d %d %d %d %d %d" % (c, ue, t, cid, pe, cid % 3))
            row(t, r.k, "User Event Pair", {"From PE": pe, "Event ID": cid, "Nested ID": cid % 3, "User Event Name": EVENTS[ue]} if ent else None, c)
        else:
            c = 11 if ent else 12
            lines.append("%d %d" % (c, t))
            row(t, r.k, "Trace", None, c)
        return
    a = r.a or {}
    if r.n in ("MpiSend", "MpiIsend"):
        e = a["receiver"] % len(ENTRY_NAMES)
        base = [q % 5, e, t, a["msg_tag"], pe, a["msg_length"], max(0, t - q % 2)]
        want = {"From PE": pe, "Message Length": a["msg_length"], "Event ID": a["msg_tag"], "Send Time": 1000 * base[-1]}
        mt = {"MType": q % 5, "Message Type": q % 5}
        if o["bcast"] and q % 3 == 0:
            lines.append("20 " + " ".join(map(str, base + [n])))
            row(t, "Instant", ENTRY_NAMES[e], dict(want), BCAST)
        elif o["multi"] and q % 2 == 0:
            dest = [(pe + d) % n for d in range(a["receiver"] % (n + 1))]
            lines.append("21 " + " ".join(map(str, base + [len(dest)] + dest)))
            row(t, "Instant", ENTRY_NAMES[e], dict(want, **{"/[Dd]estinat": dest, "Entry Type": "Multicast", "/^(MType|Message Type)$": q % 5}), 21)
        else:
            lines.append("1 " + " ".join(map(str, base)))
            row(t, "Instant", ENTRY_NAMES[e], dict(want, **{"Entry Type": "Create", "/^(MType|Message Type)$": q % 5}), 1)
        return
    if r.n == "MpiRecv":
        lines.append("10 %d %d %d %d %d" % (q % 4, t, a["msg_tag"], a["sender"], a["msg_length"]))
        row(t, "Instant", "Message Receive", {"From PE": a["sender"], "Message Type": q % 4, "Event ID": a["msg_tag"], "Message Length": a["msg_length"]}, 10)
        return
    if r.n == "MpiIrecv":
        c = 4 if q % 2 else 5
        lines.append("%d %d %d %d %d" % (c, q % 4, t, a["msg_tag"], a["sender"]))
        row(t, "Instant", "Enque" if c == 4 else "Deque", {"From PE": a["sender"], "Message Type": q % 4, "Event ID": a["msg_tag"]}, c)
        return
    c = o["instants"][q % len(o["instants"])] if o["instants"] else 27
    ue = sorted(EVENTS)[q % len(EVENTS)]
    if c == 13:
        lines.append("13 %d %d %d %d" % (ue, t, q, pe))
        row(t, "Instant", EVENTS[ue], {"From PE": pe, "Event ID": q, "Event Type": "User Event"}, 13)
    elif c == 100:
        lines.append("100 %d %d %d %d %d" % (ue, t, q, pe, q % 4))
        row(t, "Instant", EVENTS[ue], {"From PE": pe, "Event ID": q, "Nested ID": q % 4, "Event Type": "User Event Pair"}, 100)
    elif c == 28:
        note = "a n\u00f6te no %d" % q + (" and more" * (q % 50) + ' "%d" end' % q if q % 4 == 1 else "")
        lines.append("28 %d %s" % (t, note))
        row(t, "Instant", "User Supplied Note", {"Note": note}, 28)
    elif c == 29:
        note = "bracketed note %d" % q + (" 29 7" * (q % 60) if q % 4 == 1 else "")
        lines.append('29 %d %d %d "%s"' % (t, t + q % 4, ue, note))
        at = {"Event ID": ue, "Event Name": EVENTS[ue], "Note": note}
        row(t, "Enter", "User Supplied Bracketed Note", at, 29)
        row(t + q % 4, "Leave", "User Supplied Bracketed Note", None, 29)
    elif c == 32:
        us = sorted(STATS)[q % len(STATS)]
        stat = q / 4 if q % 3 else -1.5e-7 * q if q % 2 else 1e15 + q
        lines.append("32 %d %d %r %d %d" % (t, max(0, t - 1), stat, pe, us))
        row(t, "Instant", STATS[us], {"From PE": pe, "User Time": 1000 * max(0, t - 1), "Stat": stat}, 32)
    elif c == 26:
        val = q if q % 3 else -q
        lines.append("26 %d" % val)
        row(-1, "Instant", "User Supplied", {"User Supplied": val}, 26)
    elif c in (4, 5):
        lines.append("%d %d %d %d %d" % (c, q % 4, t, q, pe))
        row(t, "Instant", "Enque" if c == 4 else "Deque", {"From PE": pe, "Message Type": q % 4, "Event ID": q}, c)
    elif c == 10:
        lines.append("10 %d %d %d %d %d" % (q % 4, t, q, pe, 8 * q))
        row(t, "Instant", "Message Receive", {"From PE": pe, "Message Type": q % 4, "Event ID": q, "Message Length": 8 * q}, 10)
    elif c == 20 and o["bcast"]:
        e = q % len(ENTRY_NAMES)
        lines.append("20 %d %d %d %d %d %d %d %d" % (q % 5, e, t, q, pe, 8 * q, max(0, t - 1), n))
        row(t, "Instant", ENTRY_NAMES[e], {"From PE": pe, "Message Length": 8 * q, "Event ID": q, "Send Time": 1000 * max(0, t - 1)}, BCAST)
    else:
        mem = q * 1000 if q % 2 else q * 1000 + 2 ** 33
        lines.append("27 %d %d" % (mem, t))
        row(t, "Instant", "Memory Usage", {"Memory Usage": mem}, 27)


def hash_name(s):
    return sum((i + 1) * ord(c) for i, c in enumerate(s)) % 10007


def put(ctx, name, files):
    d = ctx.path(name)
    os.makedirs(d, exist_ok=True)
    for f, b in files.items():
        with seams.real_open(os.path.join(d, f), "wb") as h:
            h.write(b)
    return d


def load(pp, path, nproc, create_cct=False):
    return pp.Trace.from_projections(path, nproc, create_cct)


def same_name(got, want):
    g = str(got).strip()
    return g == want or (g.endswith("::" + want) and g.split("::")[0] in CHARES)


def check_events(ex, df, attrs=False, bcast_missing=False):
    """bcast_missing: accept that the records of broadcast creations are absent."""
    ts, k, n, pr = (lib.col(df, c) for c in ("Timestamp (ns)", "Event Type", "Name", "Process"))
    at = lib.col(df, "Attributes") if attrs else None
    want = [[r for r in rows if not (bcast_missing and r.code == BCAST)] for rows in ex.pes]
    total = sum(map(len, want))
    # values a user supplied carry no time
    timeless = [[r for r in rows if r.code == 26] for rows in want]
    want = [[r for r in rows if r.code != 26] for rows in want]
    pos = [0] * len(want)
    tpos = [0] * len(want)
    last = -math.inf
    for i in range(len(df)):
        lib.expect(ts[i] >= last, "not-sorted", lambda: "row %d at %s follows %s" % (i, ts[i], last))
        last = ts[i]
        p = int(pr[i])
        lib.expect(0 <= p < len(want), "wrong-location", lambda: "row %d is on process %r, of %d" % (i, pr[i], len(want)))
        if n[i] == "User Supplied" and tpos[p] < len(timeless[p]):
            r = timeless[p][tpos[p]]
            tpos[p] += 1
            lib.expect(k[i] == "Instant", "wrong-event", lambda: "row %d is %s %s, recorded %r" % (i, k[i], n[i], r))
        else:
            lib.expect(pos[p] < len(want[p]), "surplus-event", lambda: "row %d (%s %s at %s on PE %d) was not recorded" % (i, k[i], n[i], ts[i], p))
            r = want[p][pos[p]]
            pos[p] += 1
            lib.expect(int(ts[i]) == r.ts * 1000 or bcast_missing and int(ts[i]) == r.alt * 1000, "wrong-time", lambda: "row %d (%s %s) of PE %d is at %s ns, recorded %r (microseconds)" % (i, k[i], n[i], p, ts[i], r))
            lib.expect(k[i] == r.k and same_name(n[i], r.n), "wrong-event", lambda: "row %d is %s %r, event %d of PE %d is %r" % (i, k[i], n[i], pos[p] - 1, p, r))
        if attrs:
            check_attrs(i, at[i], r)
    for p in range(len(want)):
        lib.expect(pos[p] == len(want[p]), "lost-event", lambda: "PE %d: %d of %d events loaded; missing %r" % (p, pos[p], len(want[p]), want[p][pos[p]]))
        lib.expect(tpos[p] == len(timeless[p]), "lost-event", lambda: "PE %d: %d of %d user supplied values loaded" % (p, tpos[p], len(timeless[p])))
    lib.expect(len(df) == total, "event-count", lambda: "%d events loaded, %d recorded" % (len(df), total))


def norm(s):
    return " ".join(str(s).replace('"', " ").split())


def check_attrs(i, a, r):
    if r.attrs is None:
        return
    lib.expect(isinstance(a, dict), "no-attributes", lambda: "row %d (%r) has attributes %r" % (i, r, a))
    for key, v in r.attrs.items():
        if key.startswith("/"):
            ks = [x for x in a if re.search(key[1:], x)]
            lib.expect(ks and any(a[x] == v for x in ks), "wrong-attribute", lambda: "row %d (%r): %s is %r, recorded %r" % (i, r, ks or key, [a[x] for x in ks], v))
            continue
        g = a.get(key)
        if key in ("Note", "Event Name", "User Event Name"):
            ok = g is not None and norm(g) == norm(v)
        elif isinstance(v, list) and key in ("Receive Time", "CPU Start Time"):
            ok = g in v
        elif isinstance(v, (int, float)):
            ok = key in a and str(g).strip() != "" and float(g) == float(v)
        else:
            ok = g == v
        lib.expect(ok, "wrong-attribute", lambda: "row %d (%r): %s is %r, recorded %r" % (i, r, key, g, v))
