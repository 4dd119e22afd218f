"""Writes the records of a simulated execution as an OTF2 archive, using the OTF2
library's own writer, and says what a faithful reader has to return."""
import inspect
import math

import otf2
import otf2.writer
from otf2 import enums, events
from otf2.enums import (Base, CollectiveOp, GroupType, InterruptGeneratorMode, IoHandleFlag, IoParadigmClass, IoParadigmFlag, LocationGroupType, LocationType,
                        MeasurementMode, MetricOccurrence, ParameterType, RecorderKind, RegionFlag, Type)

from . import lib

RES = [1, 1000, 10 ** 6, 10 ** 9, 10 ** 9, 2600000000, 3000000000, 999999937]


class _Clock:
    @staticmethod
    def time():
        return 1_700_000_000.0


otf2.writer.time = _Clock  # the archive's real-time stamp


def gen_opts(rng, metrics=None, tier="quick"):
    m = rng.random() < 0.25 if metrics is None else metrics
    classes = []
    if m:
        for _ in range(rng.choice([1, 1, 2, 3])):
            classes.append([rng.choice(["u", "i", "d"]) for _ in range(rng.choice([1, 2, 3]))])
    return {
        "res": rng.choice(RES),
        "refs": rng.choice(["seq", "seq", "scorep", "rank_high", "reverse", "gaps", "mixed", "huge"]),
        "classes": classes,
        "where": rng.choice(["all", "all", "some", "one"]),
        "inst": rng.random() < 0.2,
        "dup": rng.random() < 0.2,
        "share": rng.random() < 0.3,
        "density": rng.choice([100, 100, 50, 15]),
        "all_kinds": rng.random() < 0.5,
        "attrs": rng.choice([0, 0, 0, 1, 2]),
        "generic": rng.random() < 0.3,
        "base": rng.choice([0, 0, 0, 1, 70000, 2 ** 31 + 5]) if rng.random() < 0.5 else 0,
        "gpu": rng.random() < 0.15,
        "mangled": rng.random() < 0.3,
        "orphans": rng.random() < 0.2,
        "shuffle": [rng.randrange(64) for _ in range(8)] if rng.random() < 0.4 else [],
    }


def _refs(locs, mode):
    out = []
    for i, (p, t) in enumerate(locs):
        if mode == "scorep":
            out.append((t << 32) | p)
        elif mode == "rank_high":
            out.append((p << 16) | t)
        elif mode == "reverse":
            out.append(len(locs) - 1 - i)
        elif mode == "gaps":
            out.append(3 * i + 2)
        elif mode == "huge":
            out.append(i * 5 + 3 << 33)
        elif mode == "mixed":
            out.append(i * 7919 % 104729)
        else:
            out.append(i)
    return out


def conv(v):
    """How a recorded value is shown in the tables."""
    if isinstance(v, (list, tuple)):
        return [conv(x) for x in v]
    if isinstance(v, dict):
        return {conv(k): conv(x) for k, x in v.items()}
    if type(v).__module__ == "otf2.definitions":
        return "%s %d" % (type(v).__name__, v._ref)
    if hasattr(type(v), "_names"):
        names = type(v)._names
        if v.value in names:
            return "%s.%s" % (type(v).__name__, names[v.value])
        return Flags(type(v).__name__, [n for b, n in names.items() if b and b & v.value == b])
    return v


class Flags:
    """Several flags: any text that names exactly these of them."""

    def __init__(self, kind, names):
        self.kind, self.names = kind, names

    def matches(self, text):
        words = "".join(c if c.isalnum() or c == "_" else " " for c in str(text)).split()
        known = set(getattr(enums, self.kind)._names.values())
        return {x for x in words if x in known} == set(self.names)

    def __repr__(self):
        return "%s.%s" % (self.kind, "|".join(self.names))


def same(got, want):
    if isinstance(want, Flags):
        return want.matches(got)
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(map(str, got)) == set(map(str, want)) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, float) or isinstance(got, float):
        return isinstance(got, (int, float)) and isinstance(want, (int, float)) and float(got) == float(want)
    return str(got) == str(want)


# every kind of event the format has, other than those written on purpose elsewhere
GENERIC = sorted((n, c) for n, c in vars(events).items() if isinstance(c, type) and issubclass(c, events._Event)
                 and n not in ("_Event", "Metric", "Enter", "Leave", "MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "ParameterString", "ParameterInt", "ParameterUnsignedInt"))


def _members(kind):
    e = getattr(enums, kind)
    return [v for k, v in sorted(vars(e).items()) if isinstance(v, e)]


def _palette(d, comm, region, group, root):
    """Something of every kind that events can refer to."""
    win = d.rma_win("window", comm)
    f = d.io_regular_file("out/data.txt", scope=root)
    d.io_directory("out", scope=root)
    par = d.io_paradigm("POSIX", "POSIX I/O", IoParadigmClass.SERIAL, IoParadigmFlag.OS, {})
    h = [d.io_handle("handle %d" % i, f, par, [IoHandleFlag.NONE, IoHandleFlag.PRE_CREATED | IoHandleFlag.ALL_PROXY][i], comm) for i in range(2)]
    place = d.source_code_location("main.c", 70001)
    cc = d.calling_context(region, place, None)
    cc2 = d.calling_context(region, None, cc)
    gen = d.interrupt_generator("timer", InterruptGeneratorMode.TIME, Base.DECIMAL, -3, 10)
    return {"CommRef": [comm], "RegionRef": [region], "RmaWinRef": [win], "IoHandleRef": h, "GroupRef": [group], "StringRef": ["a string", "another one"],
            "CallingContextRef": [cc, cc2], "InterruptGeneratorRef": [gen], "IoParadigmRef": [par], "IoFileRef": [f]}


def _generic(r, j, palette, attributes):
    """An event of any kind, and what has to be shown of it."""
    name, cls = GENERIC[(r.seq * 7 + j) % len(GENERIC)]
    params = list(inspect.signature(cls.__init__).parameters)[2:-1]
    vals = []
    for i, f in enumerate(x for x in cls._fields if x[0] not in ("time", "attributes")):
        kind, u = f[1], r.seq * 31 + i * 7 + j
        if kind in palette:
            vals.append(palette[kind][u % len(palette[kind])])
        elif kind == "array":
            vals.append(["argument %d" % x for x in range(u % 4)])
        elif kind == "TimeStamp":
            vals.append(r.ts + u)
        elif kind.startswith("ctypes"):
            vals.append(u % 100 if "8" in kind else u * (1 if "16" in kind else 65537) % 2 ** 31)
        else:
            m = _members(kind)
            v = m[u % len(m)]
            if hasattr(v, "__or__") and u % 3 == 0:
                v = v | m[(u // 3) % len(m)]
            vals.append(v)
    return name, cls(r.ts, *vals, attributes=attributes), {p: conv(v) for p, v in zip(params, vals)}


class Row:
    """What has to be loaded for one recorded event."""

    __slots__ = ("ts", "k", "n", "loc", "attrs", "metrics", "seq")

    def __init__(self, ts, k, n, loc, attrs, metrics, seq):
        self.ts, self.k, self.n, self.loc, self.attrs, self.metrics, self.seq = ts, k, n, loc, attrs, metrics, seq

    def __repr__(self):
        return "%s %s@%s %s" % (self.loc, self.k, self.ts, self.n)


class Expect:
    pass


def write(path, w, o):
    """Write the archive at path; the expectation is returned.  Every record of the
    world is written by its location in order."""
    ex = Expect()
    wr = otf2.writer.Writer(path, timer_resolution=int(o["res"]))
    d = wr.definitions
    ex.res = int(o["res"])
    if o.get("base"):
        for reg in (d._regions, d._comms, d._groups, d._parameters, d._attributes, d._rma_wins, d._io_handles, d._calling_contexts, d._system_tree_nodes):
            reg._ref = o["base"] - 1
    try:
        root = d.system_tree_node("machine")
        procs = sorted({l[0] for l in w.locs})
        groups = {}
        for p in procs:
            d.location_groups._ref = p - 1
            groups[p] = d.location_group("Process %d" % p, location_group_type=LocationGroupType.PROCESS, system_tree_parent=root)
        refs = _refs(w.locs, o["refs"])
        # threads of a process are numbered in order of their location ids
        number = {}
        for p in procs:
            ids = sorted(r for (q, t), r in zip(w.locs, refs) if q == p)
            for (q, t), r in zip(w.locs, refs):
                if q == p:
                    number[(q, t)] = ids.index(r)
        order = list(range(len(w.locs)))
        for i, s in enumerate(o.get("shuffle", [])):
            a, b = i % len(order), s % len(order)
            order[a], order[b] = order[b], order[a]
        locs = {}
        for i in order:
            p, t = w.locs[i]
            d.locations._ref = refs[i] - 1
            locs[i] = d.location("thread %d of %d" % (t, p), type=LocationType.CPU_THREAD, group=groups[p])
        if o.get("gpu"):
            # (its number may lie below or between those of the threads)
            free = [x for x in range(max(refs) + 1) if x not in set(refs)][:3] if max(refs) < 10 ** 6 else []
            d.locations._ref = (free[len(w.locs) % len(free)] if free else max(refs) + 7) - 1
            d.location("stream", type=LocationType.GPU, group=groups[procs[-1]])
        world_group = d.group("world", group_type=GroupType.COMM_LOCATIONS, members=[locs[i] for i, l in enumerate(w.locs) if number[l] == 0])
        comm_group = d.group("ranks", group_type=GroupType.COMM_GROUP, members=list(range(len(procs))))
        comm = d.comm("MPI_COMM_WORLD", comm_group)
        par_i = d.parameter("iteration", ParameterType.INT64)
        par_u = d.parameter("count", ParameterType.UINT64)
        par_s = d.parameter("phase", ParameterType.STRING)
        att_i = d.attribute("att int", "an attribute", Type.INT64)
        att_s = d.attribute("att string", "another", Type.STRING)
        d.paradigm(enums.Paradigm.MPI, "MPI", enums.ParadigmClass.PROCESS)
        typed = []
        if o.get("attrs") == 2:
            first = locs[0]
            reg0 = d.region("attribute region", region_flags=RegionFlag.DYNAMIC | RegionFlag.PHASE if w.locs[0][0] % 2 else RegionFlag.DYNAMIC)
            typed = [(d.attribute("att " + str(kind), "typed", kind), v) for kind, v in
                     ((Type.REGION, reg0), (Type.COMM, comm), (Type.LOCATION, first), (Type.GROUP, comm_group), (Type.PARAMETER, par_s), (Type.DOUBLE, 0.1), (Type.FLOAT, 0.25),
                      (Type.UINT8, 200), (Type.INT16, -30000), (Type.UINT64, 2 ** 63 + 1), (Type.INT32, -1), (Type.LOCATION_GROUP, groups[procs[0]]), (Type.ATTRIBUTE, att_i))]
            d.location_property(first, "property", Type.STRING, "value")
        palette = None
        if o.get("generic"):
            palette = _palette(d, comm, d.region("palette region"), comm_group, root)
        regions = {}
        classes, members = [], []
        for ci, kinds in enumerate(o["classes"]):
            ms = []
            for mi, kind in enumerate(kinds):
                if o.get("share") and ci and mi < len(classes[0][1]) and classes[0][1][mi] == kind:
                    ms.append(first_class[mi])  # (a counter of several groups)
                    continue
                m = d.metric_member("PAPI_%d_%d" % (ci, mi), "metric", value_type={"u": Type.UINT64, "i": Type.INT64, "d": Type.DOUBLE}[kind])
                ms.append(m)
                members.append(m.name)
            if not ci:
                first_class = ms
            classes.append((d.metric_class(tuple(ms), occurrence=MetricOccurrence.SYNCHRONOUS_STRICT, recorder_kind=RecorderKind.CPU), kinds))
        ex.metric_names = members
        # (groups can also be recorded by way of an instance for a scope)
        scopes = [locs[0], groups[w.locs[0][0]], root]
        inst = [d.metric_instance(cls, recorder=locs[0], scope=scopes[ci % 3]) for ci, (cls, _) in enumerate(classes)] if o.get("inst") else []
        all_rows = []
        first = None
        for i in range(len(w.locs)):
            ew = wr.event_writer_from_location(locs[i])
            rows = []
            measured = o["where"] == "all" or (o["where"] == "one" and i == 0) or (o["where"] == "some" and i % 2 == 0)
            for j, r in enumerate(w.recs[i]):
                first = r.ts if first is None else min(first, r.ts)
                loc = (w.locs[i][0], number[w.locs[i]])
                vals = {}
                if o.get("orphans") and classes and j and r.seq % 3 == 0 and w.recs[i][j - 1].ts < r.ts - 1:
                    # a reading whose event has been lost
                    cls, kinds = classes[r.seq % len(classes)]
                    ew.metric(r.ts - 1, cls, [{"u": 77, "i": -7, "d": 7.75}[kind] for kind in kinds])
                if r.k != "Instant" and measured:
                    for ci, (cls, kinds) in enumerate(classes):
                        if (r.seq * 31 + ci * 17 + 11 * j) % 100 >= o["density"]:
                            continue
                        vs = []
                        for mi, kind in enumerate(kinds):
                            own = 0 if o.get("share") and ci and mi < len(classes[0][1]) and classes[0][1][mi] == kind else ci
                            v = (r.seq * 7919 + own * 131 + mi * 17) % 100003 + j
                            v = {"u": v * 1000003, "i": v - 50000, "d": v / 8}[kind]
                            vs.append(v)
                            vals["PAPI_%d_%d" % (own, mi)] = v
                        ew.metric(r.ts, inst[ci] if inst and r.seq % 3 else cls, vs)
                attributes, want_att = None, None
                if o.get("attrs") and j % 3 == 1:
                    attributes = {att_i: j - 5, att_s: "v%d" % (j % 4)}
                    for x in range(len(typed) and 1 + j % 4):
                        key, v = typed[(j + r.seq + x) % len(typed)]
                        attributes[key] = v
                    want_att = conv(attributes)
                if r.k in ("Enter", "Leave"):
                    key = (r.n, (r.cid or 0) % 2 if o.get("dup") else 0)  # (functions of the same name)
                    if key not in regions:
                        regions[key] = d.region(r.n, canonical_name="_Z%d%s" % (len(r.n), r.n) if o.get("mangled") else r.n, source_file="main.c", begin_line_number=len(regions))
                    reg = regions[key]
                    (ew.enter if r.k == "Enter" else ew.leave)(r.ts, reg, attributes=attributes)
                    name, a = r.n, {"region": "Region %d" % reg._ref}
                elif palette and r.n not in ("MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv") and r.seq % 4:
                    name, event, a = _generic(r, j, palette, attributes)
                    ew.write(event)
                else:
                    name, a = _instant(ew, r, j, attributes, comm, par_i, par_u, par_s, len(procs), o)
                if r.k == "Leave":
                    a = None
                elif want_att:
                    a["attributes"] = want_att
                rows.append(Row(r.ts, r.k, name, loc, a, vals, r.seq))
            all_rows.append(rows)
        ex.rows = all_rows
        ex.offset = 0 if first is None else first
        ex.count = sum(len(r) for r in all_rows)
        wr.close()
    finally:
        if wr._handle is not None:
            wr._handle = None  # the writer's destructor must not touch a broken archive
    ex.defs = definitions_of(d)
    return ex


def _instant(ew, r, j, attributes, comm, par_i, par_u, par_s, nproc, o):
    a = r.a or {}
    c = "Comm %d" % comm._ref
    k = {"attributes": attributes}
    if r.n == "MpiSend":
        ew.mpi_send(r.ts, a["receiver"], comm, a["msg_tag"], a["msg_length"], **k)
        return r.n, {"receiver": a["receiver"], "communicator": c, "msg_tag": a["msg_tag"], "msg_length": a["msg_length"]}
    if r.n == "MpiIsend":
        ew.mpi_isend(r.ts, a["receiver"], comm, a["msg_tag"], a["msg_length"], a["request_id"], **k)
        return r.n, {"receiver": a["receiver"], "communicator": c, "msg_tag": a["msg_tag"], "msg_length": a["msg_length"], "request_id": a["request_id"]}
    if r.n == "MpiRecv":
        ew.mpi_recv(r.ts, a["sender"], comm, a["msg_tag"], a["msg_length"], **k)
        return r.n, {"sender": a["sender"], "communicator": c, "msg_tag": a["msg_tag"], "msg_length": a["msg_length"]}
    if r.n == "MpiIrecv":
        ew.mpi_irecv(r.ts, a["sender"], comm, a["msg_tag"], a["msg_length"], a["request_id"], **k)
        return r.n, {"sender": a["sender"], "communicator": c, "msg_tag": a["msg_tag"], "msg_length": a["msg_length"], "request_id": a["request_id"]}
    kind = r.seq % 7 if o.get("all_kinds") else 0
    if kind == 0:
        ew.parameter_int(r.ts, par_i, j - 3, **k)
        return "ParameterInt", {"parameter": "Parameter %d" % par_i._ref, "value": j - 3}
    if kind == 1:
        ew.parameter_string(r.ts, par_s, "phase %d" % (j % 3), **k)
        return "ParameterString", {"parameter": "Parameter %d" % par_s._ref, "string": "phase %d" % (j % 3)}
    if kind == 2:
        ew.thread_team_begin(r.ts, comm, **k)
        return "ThreadTeamBegin", {"thread_team": c}
    if kind == 3:
        ew.mpi_collective_begin(r.ts, **k)
        return "MpiCollectiveBegin", {}
    if kind == 4:
        ew.mpi_collective_end(r.ts, CollectiveOp.ALLREDUCE, comm, nproc - 1, 8 * j, 16 * j, **k)
        return "MpiCollectiveEnd", {"collective_op": str(CollectiveOp.ALLREDUCE), "communicator": c, "root": nproc - 1, "size_sent": 8 * j, "size_received": 16 * j}
    if kind == 5:
        ew.measurement_on_off(r.ts, MeasurementMode.OFF, **k)
        return "MeasurementOnOff", {"measurement_mode": str(MeasurementMode.OFF)}
    ew.parameter_unsigned_int(r.ts, par_u, 5 * j, **k)
    return "ParameterUnsignedInt", {"parameter": "Parameter %d" % par_u._ref, "value": 5 * j}


def definitions_of(d):
    """(type, id, name, fields) of everything defined in the archive."""
    out = []
    for key, reg in vars(d).items():
        if key == "clock_properties":
            out.append(("ClockProperties", None, None, None))
        elif "otf2" not in key:
            for x in reg:
                fields = {f.name: conv(getattr(x, f.name)) for f in x._fields if not f.name.startswith("_")}
                out.append((type(x).__name__, getattr(x, "_ref", None), getattr(x, "name", None), fields))
    return sorted(out, key=repr)


def ns(ex, t):
    return (t - ex.offset) * 10 ** 9 / ex.res


def load(pp, path, nproc, create_cct=False):
    return pp.Trace.from_otf2(path, nproc, create_cct)


def close_time(got, want):
    return math.isclose(float(got), float(want), rel_tol=1e-12, abs_tol=1e-9)


def rows_by_loc(ex):
    out = {}
    for rows in ex.rows:
        for r in rows:
            out.setdefault(r.loc, []).append(r)
    return out


def check_events(ex, df, attrs=False, metrics=False):
    """The loaded table is the recorded events, exactly once, in program order."""
    lib.expect(len(df) == ex.count, "event-count", lambda: "%d events loaded, %d recorded" % (len(df), ex.count))
    ts, k, n, th, pr = (lib.col(df, c) for c in ("Timestamp (ns)", "Event Type", "Name", "Thread", "Process"))
    at = lib.col(df, "Attributes") if attrs else None
    mcols = {m: (df[m].tolist() if m in df.columns else None) for m in ex.metric_names} if metrics else {}
    want = rows_by_loc(ex)
    pos = {l: 0 for l in want}
    last = -math.inf
    for i in range(len(df)):
        lib.expect(ts[i] >= last, "not-sorted", lambda: "row %d at %s follows %s" % (i, ts[i], last))
        last = ts[i]
        loc = (int(pr[i]), int(th[i]))
        lib.expect(loc in want and pos[loc] < len(want[loc]), "wrong-location", lambda: "row %d (%s %s at %s) is on process %d thread %d, which recorded %d events" % (i, k[i], n[i], ts[i], loc[0], loc[1], len(want.get(loc, []))))
        r = want[loc][pos[loc]]
        pos[loc] += 1
        lib.expect(close_time(ts[i], ns(ex, r.ts)), "wrong-time", lambda: "row %d is at %s ns, event %d of %s was recorded at %s ns" % (i, ts[i], pos[loc] - 1, loc, ns(ex, r.ts)))
        lib.expect(k[i] == r.k and n[i] == r.n, "wrong-event", lambda: "row %d is %s %s, event %d of %s is %r" % (i, k[i], n[i], pos[loc] - 1, loc, r))
        if attrs:
            check_attrs(i, at[i], r)
        if metrics:
            for m, vals in mcols.items():
                if m in r.metrics:
                    lib.expect(vals is not None and not lib.isna(vals[i]) and float(vals[i]) == float(r.metrics[m]), "wrong-metric", lambda: "row %d (%r) has %s = %s, recorded %s" % (i, r, m, vals and vals[i], r.metrics[m]))
                else:
                    lib.expect(vals is None or lib.isna(vals[i]), "spurious-metric", lambda: "row %d (%r) has %s = %s, nothing was recorded with it" % (i, r, m, vals[i]))


def check_attrs(i, a, r):
    if r.k == "Leave":
        return
    lib.expect(isinstance(a, dict), "no-attributes", lambda: "row %d (%r) has attributes %r" % (i, r, a))
    for key, v in r.attrs.items():
        lib.expect(key in a and same(a[key], v), "wrong-attribute", lambda: "row %d (%r) has %s = %r, recorded %r" % (i, r, key, a.get(key), v))
    lib.expect(set(map(str, a)) <= set(r.attrs), "spurious-attribute", lambda: "row %d (%r) has attributes %r, recorded %r" % (i, r, a, r.attrs))


def check_definitions(ex, df):
    typ, ids, at = lib.col(df, "Definition Type"), lib.col(df, "ID"), lib.col(df, "Attributes")
    got = [(t, None if lib.isna(i) else int(i)) for t, i in zip(typ, ids)]
    want = [(t, i) for t, i, _, _ in ex.defs]
    lib.expect(sorted(got, key=repr) == sorted(want, key=repr), "definitions", lambda: "loaded definitions %s differ from those written %s" % (sorted(set(map(str, got)) ^ set(map(str, want)))[:6], len(want)))
    fields = {(t, i): f for t, i, _, f in ex.defs if f is not None and i is not None}
    loose = [(t, f) for t, i, _, f in ex.defs if f is not None and i is None]
    for key, a in zip(got, at):
        f = fields.get(key)
        if f is None:
            rest = [x for x in loose if x[0] == key[0]]
            lib.expect(not rest or any(_shown(a, x[1]) for x in rest), "definition-fields", lambda: "%s is loaded as %r, written %r" % (key[0], a, rest))
        else:
            lib.expect(_shown(a, f), "definition-fields", lambda: "%s %s is loaded as %r, written %r" % (key + (a, f)))


def _shown(a, fields):
    if len(fields) == 1:
        return same(a, list(fields.values())[0])
    return isinstance(a, dict) and set(a) == set(fields) and all(same(a[k], v) for k, v in fields.items())
