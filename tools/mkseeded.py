"""Writes the table of planted bugs of DESIGN.md (between its markers) from seeded/*/meta.json and
the last results of the checks against them (tools/seedresults.json, written by tools/runseeds.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
try:
    res = json.load(open(V + "/tools/seedresults.json"))
except OSError:
    pass
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    r = res.get(i, {})
    hit = ", ".join("%s (%s, run %s)" % (c.upper(), x["class"], x["run"]) for c, x in sorted(r.items()) if x["rc"] == 1)
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), hit or "—"))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded table -->\n", "<!-- end of seeded table -->"
h, t = s.split(a)[0], s.split(b)[1]
open(p, "w").write(h + a + "\n".join(rows) + "\n" + b + t)
