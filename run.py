#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] | --replay FILE | --selftest PROPERTY"""
import os
import sys

ENV = {"PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "DST_CHILD": "1", "NUMBA_DISABLE_JIT": "1"}
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("DST_CHILD") != "1" or sys.executable != PY:
    env = dict(os.environ, **ENV)
    env["PYTHONPATH"] = HERE
    os.execve(PY, [PY, os.path.join(HERE, "run.py")] + sys.argv[1:], env)

sys.path[:] = [HERE] + [p for p in sys.path if p not in (HERE, "/repo")]


def main():
    a = sys.argv[1:]
    from dst import runner

    if a[:1] == ["--replay"]:
        return runner.replay(a[1])
    if a[:1] == ["--setup"]:
        runner.prepare()
        from dst import seams

        print("ready", seams.fresh_pipit().__name__, sys.version.split()[0])
        return 0
    if a[:1] == ["--selftest"]:
        return runner.selftest(a[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    seed = int(seed) if seed.lstrip("-").isdigit() else 1
    jobs = int(os.environ.get("DST_JOBS") or min(8, os.cpu_count() or 1))
    return runner.check(a[0].lower(), tier, seed, jobs)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc(file=sys.stdout)
        print("HARNESS-ERROR")
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
