"""tools/runseeds.py [ID...]: runs the check of each planted bug's property (and those named in
EXTRA) against a changed copy of /repo; results go to tools/seedresults.json."""
import json, os, re, subprocess, sys, tempfile, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = V + "/tools/seedresults.json"
res = json.load(open(out)) if os.path.exists(out) else {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(V + "/seeded/*/meta.json"))
for i in ids:
    d = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    for c in [d["property"].lower()] + os.environ.get("EXTRA", "").split():
        w = tempfile.mkdtemp(prefix="seedrun.", dir="/tmp")
        try:
            shutil.copytree("/repo", w + "/repo", symlinks=True)
            subprocess.run(["git", "-C", w + "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
            r = subprocess.run([V + "/run.py", c], env=dict(os.environ, DST_REPO=w + "/repo", DST_OUT=w + "/out", DST_SHRINK_S="3", VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            m = re.search(r"run=(\d+) class=(\S+)", r.stdout)
            res.setdefault(i, {})[c] = {"rc": r.returncode, "run": int(m[1]) if m else None, "class": m[2] if m else None}
            print(i, c, res[i][c], flush=True)
        finally:
            shutil.rmtree(w)
    json.dump(res, open(out, "w"), indent=1, sort_keys=True)
