#!/opt/venv/bin/python
"""tools/mkseed.py SPEC.py [--check]: make and validate a planted bug from a spec.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO.
It writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} after confirming, in
a scratch copy of /repo, that the patch changes original lines only, that the
stable tests pass with it, and that the demo tells the two trees apart."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "594670d"

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def main():
    spec = runpy.run_path(sys.argv[1])
    out = os.path.join(HERE, "seeded", spec["ID"])
    top = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = os.path.join(top, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        sh("git checkout -q -- .", repo)
        env = {**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"}
        d = os.path.join(top, "demo"); os.makedirs(d)
        with open(d + "/demo.py", "w") as f: f.write(spec["DEMO"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/sh\n# run with cwd = the repository\nexec env PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        denv = {**{k: v for k, v in os.environ.items() if k != "PYTHONPATH"}, "PYTHONDONTWRITEBYTECODE": "1"}
        r = sh(["sh", d + "/demo.sh"], repo, env=denv, timeout=300)
        if r.returncode: return print("demo FAILS on unchanged tree\n", r.stdout[-2000:], r.stderr[-3000:])
        files = set()
        for f, old, new in spec["EDITS"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: return print("edit text found", s.count(old), "times in", f, repr(old[:80]))
            open(p, "w").write(s.replace(old, new)); files.add(f)
        diff = sh("git diff", repo).stdout
        # every removed line must be original
        removed = 0
        for f in files:
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], repo).stdout.splitlines()
            cur = None
            for line in sh(["git", "diff", "-U0", "--", f], repo).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
                if m: cur = int(m.group(1)); continue
                if line.startswith("-") and not line.startswith("---") and cur is not None:
                    sha = bl[cur - 1].split()[0]
                    if not sha.lstrip("^").startswith(BASE): print("NOT ORIGINAL:", f, cur, line)
                    else: removed += 1
                    cur += 1
        print("original lines removed:", removed)
        r = sh(["sh", d + "/demo.sh"], repo, env=denv, timeout=300)
        if r.returncode == 0: return print("demo PASSES with the patch", r.stdout[-2000:])
        print("demo with patch rc=%d: %s" % (r.returncode, (r.stdout + r.stderr).strip()[-400:]))
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x"], repo, env=env, timeout=600)
        print("tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-500:])
        if r.returncode: print(r.stdout[-2500:]); return
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for x in ("demo.py", "demo.sh"): shutil.copy(d + "/" + x, out + "/" + x)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        open(out + "/meta.json", "a").write("\n")
        print("OK", out)
    finally:
        shutil.rmtree(top)
main()
