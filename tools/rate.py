#!/opt/venv/bin/python
"""tools/rate.py CHECK N [SEED]: how many of N runs report a violation, by kind.
(with DST_REPO pointing at a changed copy of the repository)"""
import collections, importlib, json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
from dst import runner, core
name, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
prop = runner.load(name)
base = tempfile.mkdtemp(prefix="rate.", dir=runner.scratch_base())
pids = []
J = 8
for w in range(J):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        c = collections.Counter(); first = {}
        for i in range(w, n, J):
            plan = json.loads(json.dumps(prop.gen(core.rng_for(seed, prop.ID, i), "quick")))
            out = runner.run_plan(prop, plan, os.path.join(base, "w%d" % w))
            c[str(out.kind)] += 1
            if out.kind not in (None, "invalid"): first.setdefault(out.kind, (i, (out.msg or "")[:300]))
        os.write(wfd, json.dumps([c, first]).encode()); os._exit(0)
    os.close(wfd); pids.append((pid, r))
tot = collections.Counter(); firsts = {}
for pid, r in pids:
    d = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        d += b
    os.waitpid(pid, 0)
    c, f = json.loads(d)
    tot.update(c)
    for k, v in f.items():
        if k not in firsts or v[0] < firsts[k][0]: firsts[k] = v
shutil.rmtree(base)
print(name, dict(tot))
for k, v in sorted(firsts.items(), key=lambda x: x[1]): print("  ", k, v)
