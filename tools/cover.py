#!/opt/venv/bin/python
"""tools/cover.py FILE...: which lines of pipit the checks that ran with DST_COV=FILE
have not executed."""
import os, sys, dis, types
REPO = os.environ.get("DST_REPO", "/repo")
seen = {}
for f in sys.argv[1:]:
    for l in open(f):
        a, b = l.rsplit(":", 1)
        seen.setdefault(a, set()).add(int(b))


def lines(code):
    for _, n in dis.findlinestarts(code):
        if n:
            yield n
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from lines(c)


total = missed = 0
for root, _, fs in sorted(os.walk(REPO + "/pipit")):
    if "tests" in root:
        continue
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(root, f)
        src = open(p).read()
        all_ = set(lines(compile(src, p, "exec")))
        name = os.path.relpath(p, REPO + "/pipit")
        left = sorted(all_ - seen.get(name, set()))
        total += len(all_)
        missed += len(left)
        text = src.splitlines()
        left = [n for n in left if not text[n - 1].strip().startswith(("def ", "class ", '"""', "import", "from", "@")) and text[n - 1].strip()]
        if left:
            print("%s: %d of %d lines not executed" % (name, len(left), len(all_)))
            for n in left:
                print("   %4d  %s" % (n, text[n - 1].rstrip()[:110]))
print("%d of %d lines not executed" % (missed, total))
