"""Communication views."""
import numpy as np

from .. import lib

ID = "C14"
RUNS = {"quick": 5000, "thorough": 100000}
RULE = "at least two messages sent"
REAL = ["pipit.trace.Trace (comm_matrix, message_histogram, comm_over_time, comm_by_process)", "pandas", "numpy"]
STUB = ["traced program, network (delays, reordering between pairs) and tracer (simulated)"]


def gen(rng, tier):
    p = lib.gen_case(rng, tier, lengthy=0.006, max_procs=6, max_threads=2, max_len=40, loaded=["otf2"])
    if p["via"] == "load":
        w = p["load"]["world"]
    else:
        p["via"] = "frame"
        p["opts"]["attrs"] = True
        w = p["world"]
    if rng.random() < 0.25 and len({l[0] for l in w["locs"]}) > 1:
        # some ranks record nothing at all
        silent = rng.choice(w["locs"])[0]
        for i, l in enumerate(w["locs"]):
            if l[0] == silent:
                w["faults"].append(["crash", i, 0])
    p["queries"] = []
    for _ in range(rng.choice([1, 2, 4])):
        p["queries"].append([rng.choice(["matrix", "hist", "over", "proc"]), rng.choice(["size", "count"]), rng.choice(["send", "receive"]), rng.choice([1, 2, 7, 20, 50])])
    return p


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        sends = [(r.loc[0], r.a["receiver"], r.a["msg_length"], r.ts) for r in c.rows if r.n in ("MpiSend", "MpiIsend") and r.a]
        recvs = [(r.a["sender"], r.loc[0], r.a["msg_length"], r.ts) for r in c.rows if r.n in ("MpiRecv", "MpiIrecv") and r.a]
        top = max([r.loc[0] for r in c.rows] + [s[1] for s in sends]) + 1
        for q, output, mtype, bins in plan["queries"]:
            vol = (lambda s: s[2]) if output == "size" else (lambda s: 1)
            want = {}
            for s in sends:
                want[(s[0], s[1])] = want.get((s[0], s[1]), 0) + vol(s)
            if q == "matrix":
                m = lib.must("comm_matrix", lib.apply_op, pp, c.trace, ["comm", {"output": output}])
                lib.expect(m.ndim == 2 and m.shape[0] == m.shape[1] and m.shape[0] >= top, "shape", lambda: "matrix has shape %s, highest rank is %d" % (m.shape, top - 1))
                for a in range(m.shape[0]):
                    for b in range(m.shape[1]):
                        lib.expect(lib.close(m[a, b], want.get((a, b), 0)), "wrong-entry", lambda: "%s from %d to %d is %s, sent were %s" % (output, a, b, m[a, b], want.get((a, b), 0)))
                ctx.log(q, m)
            elif q == "proc":
                d = lib.must("comm_by_process", lib.apply_op, pp, c.trace, ["by_process", {"output": output}])
                sent, rec = {}, {}
                for (a, b), v in want.items():
                    sent[a] = sent.get(a, 0) + v
                    rec[b] = rec.get(b, 0) + v
                got_s, got_r = dict(zip(map(int, d.index), lib.col(d, "Sent"))), dict(zip(map(int, d.index), lib.col(d, "Received")))
                for p in range(top):
                    lib.expect(lib.close(got_s.get(p, 0), sent.get(p, 0)), "wrong-sent", lambda: "process %d sent %s, expected %s" % (p, got_s.get(p), sent.get(p, 0)))
                    lib.expect(lib.close(got_r.get(p, 0), rec.get(p, 0)), "wrong-received", lambda: "process %d received %s, expected %s" % (p, got_r.get(p), rec.get(p, 0)))
                lib.expect(lib.close(sum(got_s.values()), sum(sent.values())) and lib.close(sum(got_r.values()), sum(rec.values())), "extra-process", "totals of processes that do not exist")
                ctx.log(q, d)
            elif q == "hist":
                kw = {}
                if mtype == "receive" and output == "count":
                    # (edges of their own, as numpy's histogram takes them)
                    kw, bins = ({"range": (0, 5000)}, bins) if bins % 2 else ({}, [0, 1, 8, 1024, 65536, 1 << 41])
                h, e = lib.must("message_histogram", c.trace.message_histogram, bins=bins, **kw)
                wh, we = np.histogram([s[2] for s in sends], bins=bins, **kw)
                lib.expect(len(h) == len(wh) and [int(x) for x in h] == [int(x) for x in wh], "wrong-histogram", lambda: "histogram of message sizes is %s, expected %s" % (list(h), list(wh)))
                lib.expect(np.allclose(np.asarray(e, float), we), "wrong-edges", lambda: "edges %s, expected %s" % (list(e), list(we)))
                ctx.log(q, h)
            else:
                op = ["over_time", {"output": output, "message_type": mtype, "bins": bins}]
                if not lib.applicable(op, c):
                    continue
                h, e = lib.must("comm_over_time", lib.apply_op, pp, c.trace, op)
                ms = sends if mtype == "send" else recvs
                rng = (min(r.ts for r in c.rows), max(r.ts for r in c.rows))
                # (times loaded from ticks of a second can be beyond 64 bits)
                conv = float if c.opts.get("float_ts") or plan["via"] == "load" else int
                wh, we = np.histogram(np.array([conv(s[3]) for s in ms], dtype=float if conv is float else "int64"), bins=bins, weights=[vol(s) for s in ms], range=(conv(rng[0]), conv(rng[1])))
                lib.expect(len(h) == bins, "wrong-histogram", "%d bins, asked for %d" % (len(h), bins))
                lib.expect(lib.close(float(np.sum(h)), sum(vol(s) for s in ms)), "lost-messages", lambda: "histogram sums to %s, messages to %s" % (np.sum(h), sum(vol(s) for s in ms)))
                if plan["via"] == "load" and rng[1] > rng[0]:
                    # times converted from ticks may fall on either side of an edge
                    cum = np.cumsum(np.asarray(h, float))
                    at = [(s[3] - rng[0]) / (rng[1] - rng[0]) * bins for s in ms]
                    for k in range(1, bins):
                        lo = sum(vol(s) for s, x in zip(ms, at) if x < k - 1e-6)
                        hi = sum(vol(s) for s, x in zip(ms, at) if x < k + 1e-6)
                        ok = lo * (1 - 1e-9) <= cum[k - 1] <= hi * (1 + 1e-9)
                        lib.expect(ok, "wrong-histogram", lambda: "communication over time is %s, expected %s (first %d bins)" % (list(h), list(wh), k))
                else:
                    lib.expect(np.allclose(np.asarray(h, float), wh), "wrong-histogram", lambda: "communication over time is %s, expected %s" % (list(h), list(wh)))
                lib.expect(np.allclose(np.asarray(e, float), we), "wrong-edges", lambda: "edges %s, expected %s" % (list(e), list(we)))
                ctx.log(q, list(h))
    ctx.probe("messages", len(sends))
    ctx.probe("receives", len(recvs))
    ctx.nontrivial = len(sends) > 1 and bool(plan["queries"])
