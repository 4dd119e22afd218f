"""Turning simulated executions into pipit traces without going through a reader
(the readers have their own properties), and results into plain rows."""
import copy

import numpy as np
import pandas as pd

from . import lib
from .core import Tape
from .world import merged


def gen_frame_opts(rng):
    return {
        "thread_col": rng.random() < 0.8,
        "cat": rng.random() < 0.6,
        "float_ts": rng.random() < 0.5,
        "metrics": rng.choice([0, 0, 1, 2]),
        "gauge": rng.randrange(2),
        "scale": rng.choice([1, 1, 1, 1000003, (1 << 33) + 1]),
        "attrs": rng.random() < 0.8,
        "rich": rng.random() < 0.25,
        "order": rng.choice(["seq", "tape"]),
        "mtape": [rng.randrange(64) for _ in range(rng.choice([0, 30]))],
    }


# details of all shapes that readers produce, and of uncommon sizes
RICH = [{"s": 'q"uo\\te\n\t/', "u": "\u00e9\u4e2d\U0001f600"}, {"l": [1, [2, "x"]], "d": {"k": 1.5}}, {}, {"n": None, "b": True, "i": -(2 ** 53)},
        {"text": "a long note about this event; " * 12, "zero": 0, "empty": "", "none": []}, {"nested": {"list": [{"text": "x" * 700}, 3]}, "f": 0.1},
        {"values": list(range(40)), "key with spaces ": "  padded  ", "": "no key"}]


def rows_of(world, opts):
    rows = merged(world, opts.get("order", "seq"), Tape(opts.get("mtape", [])))
    if not opts.get("thread_col", True):
        # several threads of one process cannot be told apart without a thread column
        rows = [r for r in rows if r.loc[1] == 0]
    return rows


def build_df(rows, opts):
    d = {
        "Timestamp (ns)": [float(r.ts) if opts.get("float_ts") else r.ts for r in rows],
        "Event Type": [r.k for r in rows],
        "Name": [r.n for r in rows],
    }
    if opts.get("thread_col", True):
        d["Thread"] = [r.loc[1] for r in rows]
    d["Process"] = [r.loc[0] for r in rows]
    if opts.get("attrs", True):
        attrs = [dict(r.a) if r.a is not None else (None if r.k == "Leave" else {"region": r.n}) for r in rows]
        if opts.get("rich"):
            attrs = [a if a is None else dict(a, **copy.deepcopy(RICH[i % len(RICH)])) for i, a in enumerate(attrs)]
        d["Attributes"] = attrs
    for m in range(opts.get("metrics", 0)):
        vals = []
        acc = {}
        for i, r in enumerate(rows):
            if r.k == "Instant":
                vals.append(float("nan"))
            else:
                # counters only grow; others (memory in use, ...) go up and down
                acc[r.loc] = acc.get(r.loc, 0) + ((r.seq * (m + 3)) % 17 - (9 if (m + opts.get("gauge", 0)) % 2 else 0)) * opts.get("scale", 1)
                vals.append(float(acc[r.loc]))
        d[lib.metric(m)] = vals
    df = pd.DataFrame(d)
    if len(rows) == 0:
        df = df.astype({"Timestamp (ns)": "float64"})
    if opts.get("cat", True):
        cols = {"Event Type": "category", "Name": "category", "Process": "category"}
        if "Thread" in df:
            cols["Thread"] = "category"
        df = df.astype(cols)
    return df


def definitions_df():
    return pd.DataFrame({"Definition Type": ["Region", "ClockProperties"], "ID": [0, np.nan], "Attributes": [{"name": "main"}, {"timer_resolution": 1}]})


def build_trace(pp, rows, opts):
    return pp.Trace(definitions_df(), build_df(rows, opts))
