"""Core types of the simulation: violations, the run context, hashing helpers."""
import hashlib
import math
import os
import random

REPO = os.environ.get("DST_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    """The property was observed to be broken.  `kind` is the violation class
    that minimisation and replay must preserve."""

    def __init__(self, kind, msg):
        super().__init__(kind + ": " + msg)
        self.kind = kind
        self.msg = msg


class SimHang(BaseException):
    """The system under test can make no further progress (deadlock) or exceeded
    its step budget.  BaseException: a real hang cannot be caught either."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class InvalidPlan(Exception):
    """A (mutated) plan that does not describe a run; never a violation."""


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


class Tape:
    """A finite list of choices; deterministic pseudo-random continuation past its
    end, so that every plan is total.  A shrunk tape is just a shorter list."""

    def __init__(self, values, salt=0):
        self.values = list(values)
        self.pos = 0
        self.salt = salt

    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.values):
            v = int(self.values[self.pos])
        else:
            v = 0
        self.pos += 1
        return v % n


def canon(x):
    """A stable, order-preserving textual form of a result value."""
    import numpy as np
    import pandas as pd

    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return "b%d" % int(x)
    if isinstance(x, (int, np.integer)):
        return "n%d" % int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "nan"
        if x == int(x) if not math.isinf(x) else False:
            return "n%d" % int(x)
        return "f%r" % x
    if x is pd.NA or x is pd.NaT:
        return "nan"
    if isinstance(x, str):
        return "s" + repr(x)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(canon(v) for v in x)) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(canon(k) + ":" + canon(v) for k, v in x.items()) + "}"
    if isinstance(x, np.ndarray):
        return "A" + canon(x.tolist())
    if isinstance(x, pd.DataFrame):
        cols = [canon(c) + "=" + canon(x[c].tolist() if not isinstance(x[c], pd.DataFrame) else x[c].values.tolist()) for c in x.columns]
        return "DF(" + canon(list(x.index)) + ";" + ";".join(cols) + ")"
    if isinstance(x, pd.Series):
        return "SR(" + canon(x.name) + canon(list(x.index)) + canon(x.tolist()) + ")"
    if isinstance(x, pd.Index):
        return "IX" + canon(list(x))
    if isinstance(x, BaseException):
        return "E" + type(x).__name__
    nid = getattr(x, "_pipit_nid", None)
    if nid is not None:
        return "N%s" % nid
    return "o" + type(x).__name__


def digest(x):
    return hashlib.sha1((x if isinstance(x, str) else canon(x)).encode("utf-8", "surrogatepass")).hexdigest()[:16]
