"""tools/fidelity.py [N]: loads N recorded traces of all formats twice, in the simulator and in a plain
interpreter with the real worker pools, files and clock, and compares the tables and trees."""
import collections, json, os, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = os.environ.get("DST_REPO", "/repo")

REAL = r'''
import json, sys
sys.path[:0] = [%r, %r]
import pipit, multiprocessing, concurrent.futures
from dst import core, lib, loads, child
class PP: Trace = __import__("pipit.trace", fromlist=["Trace"]).Trace
out = []
for job in json.load(sys.stdin):
    try:
        ld = loads.Load()
        ld.fmt, ld.dir, ld.files = job["fmt"], job["dir"], {job["file"]: b""}
        tr = ld.load(PP, job["nproc"], job["cct"])
        out.append(core.digest("\n".join(child.columns(tr)) + (core.canon(child.forest(tr)) if tr.cct is not None else "")))
    except Exception as e:
        out.append("raises %%s" %% type(e).__name__)
assert multiprocessing.cpu_count() == __import__("os").cpu_count()
json.dump(out, open(%r, "w"))
'''


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    from dst import child, core, lib, loads, runner

    runner.prepare()
    from dst import seams

    root = tempfile.mkdtemp(prefix="fidelity.", dir="/tmp") + "/"
    try:
        ctx = child._Ctx(root)
        ctx.fired = collections.Counter()
        ctx.sim_done = lambda s: None
        jobs, sim = [], []
        rng = random.Random(7)
        while len(jobs) < n:
            p = loads.gen(rng, rng.choice(loads.ALL + loads.PARALLEL * 2))
            try:
                ld = loads.make(p, ctx, "t%d" % len(jobs))
            except core.InvalidPlan:
                continue
            job = {"fmt": ld.fmt, "dir": ld.dir, "file": next(iter(ld.files)), "nproc": rng.choice([1, 2, 3, 8, None]), "cct": rng.random() < 0.3 and ld.fmt != loads.HPC}
            env = loads.gen_env(rng)
            pp = seams.fresh_pipit()
            with lib.sim(ctx, env["tape"], cores=os.cpu_count()):
                try:
                    tr = ld.load(pp, job["nproc"], job["cct"])
                    sim.append(core.digest("\n".join(child.columns(tr)) + (core.canon(child.forest(tr)) if tr.cct is not None else "")))
                except Exception as e:
                    sim.append("raises %s" % type(e).__name__)
            jobs.append(job)
        subprocess.run([sys.executable, "-c", REAL % (REPO, V, root + "out.json")], input=json.dumps(jobs), text=True, check=True, env=dict(os.environ, PYTHONHASHSEED="5"))
        real = json.load(open(root + "out.json"))
        bad = [(j, a, b) for j, a, b in zip(jobs, sim, real) if a != b]
        print("%d loads (%s), %d differ" % (n, dict(collections.Counter(j["fmt"] for j in jobs)), len(bad)))
        for x in bad[:5]:
            print(x)
        return 1 if bad else 0
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
