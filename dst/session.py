"""State of an interpreter session that does not belong to pipit: what a call must leave as it was,
and what a forked worker has its own copy of."""
import contextlib
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd
from pandas._config import config as _pdc


def _flat(d, pre=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from _flat(v, pre + k + ".")
        else:
            yield pre + k, repr(v)


_UMASK = os.umask(0)
os.umask(_UMASK)


def snapshot():
    """{aspect: comparable value}"""
    root = logging.getLogger()
    log = [(n, l.level, len(l.handlers), l.disabled) for n, l in sorted(logging.root.manager.loggerDict.items()) if isinstance(l, logging.Logger)]
    return {
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "warning filters": [repr(f) for f in warnings.filters] + [warnings.showwarning],
        "numpy error handling": (np.geterr(), np.geterrcall()),
        "numpy print options": repr(np.get_printoptions()),
        "pandas options": dict(_flat(_pdc._global_config)),
        "random numbers": random.getstate(),
        "numpy random numbers": repr(np.random.get_state()),
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGHUP, signal.SIGPIPE)},
        "recursion limit": sys.getrecursionlimit(),
        "locale": locale.setlocale(locale.LC_ALL),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr),
        "hooks": (sys.excepthook, sys.displayhook, getattr(sys, "unraisablehook", None), sys.getprofile()),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "module search path": list(sys.path),
        "decimal context": repr(decimal.getcontext()),
        "logging": (root.level, list(root.handlers), logging.root.manager.disable, log),
        "threads": sorted(t.name for t in threading.enumerate()),
    }


def differences(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                ks = sorted(str(j) for j in set(x) | set(y) if x.get(j) != y.get(j))
                out.append("%s (%s)" % (k, ", ".join(ks[:4])))
            else:
                out.append("%s (%s -> %s)" % (k, str(x)[:80], str(y)[:80]) if k not in ("random numbers", "numpy random numbers", "logging") else k)
    return out


@contextlib.contextmanager
def own():
    """The part of it a worker process changes only for itself."""
    cwd = os.getcwd()
    env = dict(os.environ)
    flt, show = list(warnings.filters), warnings.showwarning
    err = np.geterr()
    rnd, nrnd = random.getstate(), np.random.get_state()
    limit = sys.getrecursionlimit()
    path = list(sys.path)
    try:
        yield
    finally:
        if os.getcwd() != cwd:
            os.chdir(cwd)
        if dict(os.environ) != env:
            os.environ.clear()
            os.environ.update(env)
        if list(warnings.filters) != flt:
            warnings.filters[:] = flt
            warnings._filters_mutated()
        warnings.showwarning = show
        np.seterr(**err)
        random.setstate(rnd)
        np.random.set_state(nrnd)
        sys.setrecursionlimit(limit)
        sys.path[:] = path


@contextlib.contextmanager
def unusual():
    """A session whose owner has set what can be set (so that setting it to what is
    usual shows)."""
    with own():
        opts = {"display.max_rows": pd.get_option("display.max_rows"), "mode.chained_assignment": pd.get_option("mode.chained_assignment")}
        prt = np.get_printoptions()
        limit = gc.get_threshold()
        try:
            os.environ.update({"PYTHONHASHSEED": "17", "OMP_NUM_THREADS": "3", "NUMEXPR_MAX_THREADS": "3", "TZ": "UTC"})
            warnings.filterwarnings("default", message="a message nobody sends")
            np.seterr(under="warn", over="ignore")
            np.set_printoptions(precision=5)
            pd.set_option("display.max_rows", 17)
            random.seed(20)
            np.random.seed(21)
            sys.setrecursionlimit(sys.getrecursionlimit() + 7)
            gc.set_threshold(701, 11, 11)
            yield
        finally:
            for k, v in opts.items():
                pd.set_option(k, v)
            np.set_printoptions(**{k: v for k, v in prt.items() if k != "override_repr"})
            gc.set_threshold(*limit)


def open_files(prefix):
    """{descriptor: path} of what is open below a directory."""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(prefix):
            out[int(fd)] = p
    return out
