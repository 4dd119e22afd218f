"""Writes sampled executions as HPCToolkit databases (meta.db, profile.db, trace.db),
following FORMATS.md, and says what a faithful reader has to return."""
import math
import struct

from . import lib, world

IDKINDS = ["SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"]
NAMES = ["main", "foo", "bar", "solve(int)", "na\u00efve", "\u03bb-calc", "a", "b", "loop", "operator->", "f<x, y>", "x" * 300, "MPI_Send", "", "<unkown function>", "std::sort"]
FILES = ["main.c", "/usr/src/foo.c", "b\u00e4r.f90", "src/" + "d/" * 30 + "deep.h", "loop.cc", ""]
MODS = ["a.out", "/lib/libmpi.so", "libc.so.6"]
LINES = [0, 1, 7, 255, 256, 65535, 65536, 70000, 2 ** 31, 2 ** 32 - 1]
FUNC, LOOP, LINE, INST = 0, 1, 2, 3


def gen(rng, big=False, max_traces=4):
    nf = rng.choice([1, 2, 4, 8])
    funcs = []
    for _ in range(nf):
        funcs.append([rng.randrange(len(NAMES)) if rng.random() < 0.93 else -1, rng.randrange(len(MODS)) if rng.random() < 0.7 else -1, rng.randrange(1 << 40),
                      rng.randrange(len(FILES)) if rng.random() < 0.7 else -1, rng.choice(LINES)])
    n = rng.choice([1, 3, 8, 20] + ([60] if big else []))
    deep = rng.random() < 0.4
    chain = rng.random() < 0.02  # (one very deep recursion)
    if chain:
        n = rng.choice([70, 150, 300])
    ctxs = []
    for i in range(n):
        parent = -1 - rng.randrange(2) if (i == 0 or not chain and rng.random() < 0.12) else i - 1 if chain and rng.random() < 0.97 else (rng.randrange(max(0, i - 2), i) if deep else rng.randrange(i))
        lex = rng.choice([0, 0, 0, 0, 1, 1, 2, 3])
        c = {"p": parent, "lex": lex, "rel": rng.randrange(3), "f": -1, "src": None, "pt": None}
        if lex == FUNC and rng.random() < 0.93:
            c["f"] = rng.randrange(nf)
        elif rng.random() < 0.1:
            c["f"] = rng.randrange(nf)
        if lex in (LOOP, LINE) and rng.random() < 0.8 or rng.random() < 0.1:
            c["src"] = [rng.randrange(len(FILES)), rng.choice(LINES)]
        if lex == INST or rng.random() < 0.1:
            c["pt"] = [rng.randrange(len(MODS)), rng.randrange(1 << 30)]
        ctxs.append(c)
    nt = rng.choice([1, 1, 2, 3, max_traces])
    many = max_traces >= 4 and rng.random() < 0.02
    if many:
        nt = rng.choice([20, 140, 300])
    shape = rng.choice(["mpi", "mpi", "hybrid", "threads", "core"])
    hosts = rng.choice([0, 1, 2])
    far = rng.choice([0, 0, 1 << 40, 5 << 60])
    profs = []
    for i in range(nt):
        t = {}
        if hosts:
            t["NODE"] = 0x1234500000 + i % hosts
        t["RANK"] = {"mpi": i, "hybrid": i // 2, "threads": 0, "core": i}[shape]
        t["THREAD"] = {"mpi": 0, "hybrid": i % 2, "threads": i, "core": 0}[shape]
        if shape == "mpi" and nt > 1 and i % 2 and hosts == 2:
            del t["THREAD"]
        if shape == "core":
            t["CORE"] = i * 3 + far
        profs.append(t)
    if rng.random() < 0.2:
        # (not every location knows its node or core)
        for t in profs:
            if rng.random() < 0.5:
                t.pop(rng.choice(["NODE", "CORE"]), None)
            if "CORE" in t:
                t["CORE"] &= (1 << 50) - 1
    lines = []
    for i in range(nt):
        k = rng.choice([0, 1, 3, 10, 30]) if not (chain or many) else rng.choice([0, 1, 2])
        cur = rng.randrange(n)
        s = []
        style = rng.choice(["walk", "random", "walk"])
        for _ in range(k):
            x = rng.random()
            if x < 0.12:
                c = -1
            elif x < 0.2 and s:
                c = s[-1][1]
            elif style == "walk":
                y = rng.random()
                if y < 0.4 and ctxs[cur]["p"] >= 0:
                    cur = ctxs[cur]["p"]
                else:
                    kids = [j for j in range(n) if ctxs[j]["p"] == cur]
                    cur = rng.choice(kids) if kids and y < 0.85 else rng.randrange(n)
                c = cur
            else:
                c = rng.randrange(n)
            if c == -1 and s and s[-1][1] == -1:
                continue
            s.append([rng.choice([0, 1, 1, 3, 1000, 123456789]), c])
        lines.append(s)
    order = list(range(nt))
    rng.shuffle(order)
    return {"funcs": funcs, "ctxs": ctxs, "profs": profs, "lines": lines, "order": order, "t0": rng.choice([0, 5, 1_660_000_000_000_000_000]),
            "skew": [rng.choice([0, 0, 1, 50]) for _ in range(nt)], "tail": rng.choice([0, 0, 1, 1000000]), "pad": rng.choice([0, 0, 8, 24]),
            "gap": rng.choice([0, 0, 7, 64]), "flexpad": rng.choice([0, 0, 0, 1, 3]), "ids": rng.choice(["dense", "sparse", "wide"]), "summary": rng.choice([0, 0, 1])}


class Buf:
    """File content with patchable addresses."""

    def __init__(self):
        self.b = bytearray()

    def at(self):
        return len(self.b)

    def align(self, n=8):
        while len(self.b) % n:
            self.b.append(0)
        return len(self.b)

    def add(self, fmt, *v):
        a = len(self.b)
        self.b += struct.pack("<" + fmt, *v)
        return a

    def patch(self, a, fmt, *v):
        struct.pack_into("<" + fmt, self.b, a, *v)


def ctx_id(o, i):
    if o["ids"] == "wide":  # each differs from another in its highest byte only
        return 3 + i // 2 + (i % 2) * 0x15000000
    return i + 1 + 2 if o["ids"] == "dense" else 1000 + i * 37


class Expect:
    pass


def build(o):
    """{file: content}, expectation"""
    n = len(o["ctxs"])
    ctxs = []
    for i, c in enumerate(o["ctxs"]):
        p = c["p"]
        if p >= i or p < -2:
            p = -1
        ctxs.append(dict(c, p=p))
    nfun = len(o["funcs"])
    # ---- meta.db
    m = Buf()
    m.b += b"HPCTOOLKITmeta" + bytes([4, 0])
    heads = m.at()
    m.b += bytes(16 * 8)
    sect = [None] * 8

    def close(i, start):
        sect[i] = (m.at() - start, start)
        m.align()
        m.b += b"\xaa" * o["gap"]
        m.align()

    # general
    s = m.align()
    g = m.add("QQ", 0, 0)
    t = m.at(); m.b += b"title of it\0"
    d = m.at(); m.b += "d\u00e9scription\0".encode()
    m.patch(g, "QQ", t, d)
    close(0, s)
    # identifier names
    s = m.align()
    g = m.add("QB", 0, len(IDKINDS))
    ptrs = []
    for k in IDKINDS:
        ptrs.append(m.at()); m.b += k.encode() + b"\0"
    a = m.align()
    for p in ptrs:
        m.add("Q", p)
    m.patch(g, "Q", a)
    close(1, s)
    # metrics: not looked at
    s = m.align()
    m.add("QIBBBBQ", 0, 0, 32, 24, 24, 0, 0)
    close(2, s)
    # strings
    s = m.align()
    sp = {}
    for kind, lst in (("n", NAMES), ("f", FILES), ("m", MODS), ("e", ["main thread", "application thread"])):
        for i, x in enumerate(lst):
            sp[(kind, i)] = m.at()
            m.b += x.encode() + b"\0"
    close(4, s)
    # modules
    pad = o["pad"]

    def table(idx, kind, lst):
        s = m.align()
        g = m.add("QIH", 0, len(lst), 16 + pad)
        a = m.align()
        out = []
        for i in range(len(lst)):
            out.append(m.add("IIQ", 0, 0, sp[(kind, i)]))
            m.b += b"\xbb" * pad
        m.patch(g, "Q", a)
        close(idx, s)
        return out

    mods = table(5, "m", MODS)
    files = table(6, "f", FILES)
    s = m.align()
    g = m.add("QIH", 0, nfun, 40 + pad)
    a = m.align()
    fptr = []
    for nm, mo, off, fi, li in o["funcs"]:
        fptr.append(m.add("QQQQII", sp[("n", nm % len(NAMES))] if nm >= 0 else 0, mods[mo % len(MODS)] if mo >= 0 else 0, off if mo >= 0 else 0,
                          files[fi % len(FILES)] if fi >= 0 else 0, li if fi >= 0 else 0, 0))
        m.b += b"\xcc" * pad
    m.patch(g, "Q", a)
    close(7, s)
    # context tree
    s = m.align()
    nent = 2
    g = m.add("QHB", 0, nent, 32 + pad)
    a = m.align()
    m.patch(g, "Q", a)
    ents = []
    for e in range(nent):
        ents.append(m.add("QQIHHQ", 0, 0, e + 1, e + 1, 0, sp[("e", e)]))
        m.b += b"\xdd" * pad
    kids = {}
    for i, c in enumerate(ctxs):
        kids.setdefault(c["p"], []).append(i)

    def put(parent, header):
        lst = kids.get(parent, [])
        if not lst:
            return
        start = m.align()
        heads_ = []
        for i in lst:
            c = ctxs[i]
            flex = b""
            fl = 0
            if c["f"] >= 0 and nfun:
                fl |= 1
                flex += struct.pack("<Q", fptr[c["f"] % nfun])
            if c["src"]:
                fl |= 2
                flex += struct.pack("<QII", files[c["src"][0] % len(FILES)], c["src"][1] % 2 ** 32, 0)
            if c["pt"]:
                fl |= 4
                flex += struct.pack("<QQ", mods[c["pt"][0] % len(MODS)], c["pt"][1])
            flex += b"\x11" * (8 * (int(o.get("flexpad", 0)) % 8))
            heads_.append((i, m.add("QQIBBBBHHHH", 0, 0, ctx_id(o, i), fl, c["rel"] % 4, c["lex"] % 4, len(flex) // 8, 0, 0, 0, 0)))
            m.b += flex
        m.patch(header, "QQ", m.at() - start, start)
        for i, h in heads_:
            put(i, h)

    put(-1, ents[0])
    put(-2, ents[1])
    close(3, s)
    for i in range(8):
        m.patch(heads + 16 * i, "QQ", *sect[i])
    m.b += b"_meta.db"

    # ---- profile.db
    f = Buf()
    f.b += b"HPCTOOLKITprof" + bytes([4, 0])
    hp = f.at()
    f.b += bytes(32)
    nprof = len(o["profs"])
    s = f.align()
    g = f.add("QIB", 0, nprof + 1, 48 + pad)
    a = f.align()
    f.patch(g, "Q", a)
    pis = []
    for i in range(nprof + 1):
        f.b += b"\0" * 0x20
        pis.append(f.add("QII", 0, 1 if i == 0 else 0, 0))
        f.b += b"\xee" * pad
    f.patch(hp, "QQ", f.at() - s, s)
    s = f.align()
    if o.get("summary"):
        f.add("HHHH", 1, 0, 0, 0)  # the tuple of the summary profile
        f.add("BBHIQ", 0, 0, 0, 0, 0)
    for i, t in enumerate(o["profs"]):
        h = f.add("HHHH", len(t), 0, 0, 0)
        for k, v in t.items():
            f.add("BBHIQ", IDKINDS.index(k), 0, 0, i, v)
        f.patch(pis[i + 1], "Q", h)
    f.patch(hp + 16, "QQ", f.at() - s, s)
    f.b += b"_prof.db"

    # ---- trace.db
    nt = min(len(o["lines"]), nprof)
    times = []
    for i in range(nt):
        t = o["t0"] + (o["skew"][i % len(o["skew"])] if o["skew"] else 0)
        row = []
        for dt, c in world._unroll(o["lines"][i]):
            t += dt
            row.append((t, c if 0 <= c < n else -1))
        times.append(row)
    allt = [t for r in times for t, _ in r]
    lo, hi = (min(allt), max(allt) + o["tail"]) if allt else (o["t0"], o["t0"])
    tr = Buf()
    tr.b += b"HPCTOOLKITtrce" + bytes([4, 0])
    hp = tr.at()
    tr.b += bytes(16)
    s = tr.align()
    g = tr.add("QIBBBBQQ", 0, nt, 24 + pad, 0, 0, 0, lo, hi)
    a = tr.align()
    tr.patch(g, "Q", a)
    order = [i for i in o["order"] if i < nt]
    order += [i for i in range(nt) if i not in order]
    hd = {}
    for i in order:
        hd[i] = tr.add("IIQQ", i + 1, 0, 0, 0)
        tr.b += b"\xff" * pad
    for i in reversed(order):
        st = tr.align(4)
        for t, c in times[i]:
            tr.add("QI", t, ctx_id(o, c) if c >= 0 else 0)
        tr.patch(hd[i] + 8, "QQ", st, tr.at())
    tr.patch(hp, "QQ", tr.at() - s, s)
    tr.b += b"trace.db"
    ex = Expect()
    _expect(ex, o, ctxs, times, lo, hi, order)
    return {"meta.db": bytes(m.b), "profile.db": bytes(f.b), "trace.db": bytes(tr.b)}, ex


class Ev:
    __slots__ = ("ts", "k", "name", "file", "line", "ctx", "loc")

    def __init__(self, *a):
        self.ts, self.k, self.name, self.file, self.line, self.ctx, self.loc = a

    def __repr__(self):
        return "%s %s@%s %s %s:%s ctx %s" % (self.loc, self.k, self.ts, self.name[:40], self.file[:40], self.line, self.ctx)


UNKNOWN = "<unkown function>"


def _expect(ex, o, ctxs, times, lo, hi, order):
    nfun = len(o["funcs"])
    info = {}  # ctx -> (file, line), what a call from here is attributed to
    stack = {}  # ctx -> frames, outermost first
    frame = {-1: ("main thread", "", -1, 1, 0), -2: ("application thread", "", -1, 2, 0)}
    stack[-1], stack[-2] = [-1], [-2]
    info[-1] = info[-2] = (None, None)
    for i, c in enumerate(ctxs):
        p = c["p"]
        lex = c["lex"] % 4
        src = (c["src"][0] % len(FILES), c["src"][1] % 2 ** 32) if c["src"] else (None, None)
        f = o["funcs"][c["f"] % nfun] if c["f"] >= 0 and nfun else None
        if lex == FUNC:
            if p < 0 and f is not None:
                # called by nobody: where it is defined
                src = (f[3] % len(FILES) if f[3] >= 0 else None, f[4] if f[3] >= 0 else 0)
            else:
                src = (src[0] if src[0] is not None else info[p][0], src[1] if src[1] is not None else info[p][1])
        info[i] = src
        if lex in (LINE, INST):
            stack[i] = stack[p]
            continue
        name = "loop" if lex == LOOP else (NAMES[f[0] % len(NAMES)] if f is not None and f[0] >= 0 else UNKNOWN)
        frame[i] = (name, FILES[src[0]] if src[0] is not None else "", src[1] if src[1] is not None else -1, ctx_id(o, i), 1 if lex == LOOP else 0)
        stack[i] = stack[p] + [i]
    ex.locs = []
    ex.order = order
    for i in order:
        t = o["profs"][i]
        loc = (t.get("RANK"), t.get("THREAD", 0), t.get("NODE"), t.get("CORE"))
        out = []

        def ev(ts, enter, x):
            name, fl, li, cid, loop = frame[x]
            out.append(Ev(ts - lo, ("Loop " if loop else "") + ("Enter" if enter else "Leave"), name, fl, li, cid, loc))

        cur = []
        for ts, c in times[i]:
            new = stack[c] if c >= 0 else []
            k = 0
            while k < len(cur) and k < len(new) and cur[k] == new[k]:
                k += 1
            for x in reversed(cur[k:]):
                ev(ts, False, x)
            for x in new[k:]:
                ev(ts, True, x)
            cur = new
        for x in reversed(cur):
            ev(hi, False, x)
        ex.locs.append((loc, out))
    ex.count = sum(len(e) for _, e in ex.locs)
    ex.tree = sorted((frame[s[-1]][3], tuple(frame[x][3] for x in s)) for s in {tuple(v) for v in stack.values()})


def eq(a, b):
    if b is None:
        return lib.isna(a)
    return not lib.isna(a) and int(a) == b


def check_events(ex, df):
    cols = {c: (lib.col(df, c) if c in df.columns else [None] * len(df)) for c in
            ("Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "Host", "Core", "Source File Name", "Source File Line Number", "Calling Context ID")}
    lib.expect(len(df) == ex.count, "event-count", lambda: "%d events loaded, the samples imply %d" % (len(df), ex.count))
    want = {}
    for loc, evs in ex.locs:
        want.setdefault((loc[0], loc[1]), []).append((loc, evs))
    pos = {k: [0] * len(v) for k, v in want.items()}
    last = -math.inf
    for i in range(len(df)):
        ts = cols["Timestamp (ns)"][i]
        lib.expect(ts >= last, "not-sorted", lambda: "row %d at %s follows %s" % (i, ts, last))
        last = ts
        p, t = cols["Process"][i], cols["Thread"][i]
        key = (int(p) if not lib.isna(p) else None, int(t) if not lib.isna(t) else "none")
        lib.expect(key in want and pos[key][0] < len(want[key][0][1]), "wrong-location", lambda: "row %d is on process %s thread %s" % (i, p, t))
        loc, evs = want[key][0]
        e = evs[pos[key][0]]
        pos[key][0] += 1
        say = lambda what, g, w: lambda: "row %d has %s %r, event %d of its location is %r (%r expected)" % (i, what, g, pos[key][0] - 1, e, w)
        lib.expect(int(ts) == e.ts, "wrong-time", say("time", ts, e.ts))
        for c, w in (("Event Type", e.k), ("Name", e.name), ("Source File Name", e.file)):
            lib.expect(cols[c][i] == w, "wrong-" + c.split()[-1].lower(), say(c, cols[c][i], w))
        lib.expect(eq(cols["Source File Line Number"][i], e.line), "wrong-line", say("line", cols["Source File Line Number"][i], e.line))
        lib.expect(eq(cols["Calling Context ID"][i], e.ctx), "wrong-context", say("context", cols["Calling Context ID"][i], e.ctx))
        lib.expect(eq(cols["Host"][i], loc[2]), "wrong-host", say("host", cols["Host"][i], loc[2]))
        lib.expect(eq(cols["Core"][i], loc[3]), "wrong-core", say("core", cols["Core"][i], loc[3]))


def check_tree(ex, trace):
    """The calling context tree that comes with the trace has one node per frame context."""
    got = []
    df = trace.events
    ids = {}
    if "Node" in df.columns:
        for nd, c in zip(df["Node"].tolist(), df["Calling Context ID"].tolist()):
            prev = ids.setdefault(id(nd), c)
            lib.expect(prev == c, "tree-node-shared", lambda: "one tree node stands for contexts %s and %s" % (prev, c))
    count = 0
    st = [(r, 0, None) for r in trace.cct.roots]
    while st:
        nd, lvl, par = st.pop()
        count += 1
        lib.expect(nd.level == lvl, "tree-level", lambda: "a node at depth %d has level %s" % (lvl, nd.level))
        lib.expect(nd.parent is par, "tree-parent", "a node's parent is not the node that lists it as a child")
        if id(nd) in ids:
            path = []
            x = nd
            while x is not None:
                path.append(ids.get(id(x)))
                x = x.parent
            path = tuple(reversed(path))
            w = dict(ex.tree).get(ids[id(nd)])
            lib.expect(w is not None and all(a is None or a == b for a, b in zip(path, w)) and len(path) == len(w), "tree-path", lambda: "context %s has path %s, recorded %s" % (ids[id(nd)], path, w))
        st += [(c, lvl + 1, nd) for c in nd.children]
    lib.expect(count == len(ex.tree), "tree-size", lambda: "the tree has %d nodes, %d frames are defined" % (count, len(ex.tree)))


def load(pp, path, nproc=None, create_cct=False):
    return pp.Trace.from_hpctoolkit(path)
