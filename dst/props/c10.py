"""Calling context tree."""
from .. import lib, model

ID = "C10"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = "at least two call paths, and a path shared by locations or repeated, or an unmatched record"
REAL = ["pipit.util.cct", "pipit.graph", "pipit.trace.Trace", "pandas"]
STUB = ["traced program and tracer (simulated; interleaving, clocks, crashes, lost records)"]


def gen(rng, tier):
    if rng.random() < 0.0012:
        return lib.gen_long(rng)
    return lib.gen_case(rng, tier, max_len=60 if tier == "thorough" else 30)


def check(rows, trace, thread):
    paths = model.cct(rows, thread)
    nodes = lib.col(trace.events, "Graph_Node")
    lib.expect(len(nodes) == len(rows), "row-count", "%d rows, recorded %d" % (len(nodes), len(rows)))
    by_path = {}
    for i, path in paths.items():
        n = nodes[i]
        lib.expect(n is not None and not lib.isna(n), "no-node", lambda: "row %d %r has no tree node" % (i, rows[i]))
        if path in by_path:
            lib.expect(by_path[path] is n, "split-path", lambda: "call path %s has two nodes" % (path,))
        by_path[path] = n
    ids = {}
    for path, n in by_path.items():
        lib.expect(id(n) not in ids, "merged-paths", lambda: "call paths %s and %s share a node" % (path, ids[id(n)]))
        ids[id(n)] = path
        lib.expect(n.level == len(path) - 1 and n.get_level() == n.level, "wrong-level", lambda: "node of %s has level %s" % (path, n.level))
        if len(path) == 1:
            lib.expect(n.parent is None, "wrong-parent", lambda: "root call %s has a parent" % (path,))
        else:
            up = by_path.get(path[:-1])
            lib.expect(up is not None and n.parent is up, "wrong-parent", lambda: "node of %s does not have the node of %s as parent" % (path, path[:-1]))
    nid = [n._pipit_nid for n in by_path.values()]
    lib.expect(len(set(nid)) == len(nid), "node-ids", "two nodes have the same id")
    # the tree itself
    seen = []
    stack = [(r, None) for r in trace.cct.roots]
    while stack:
        n, up = stack.pop()
        lib.expect(len(seen) <= len(by_path), "extra-nodes", "the tree has more nodes than call paths (%d)" % len(by_path))
        seen.append(id(n))
        lib.expect(n.parent is up, "tree-links", lambda: "node %s is listed under a node that is not its parent" % n)
        stack += [(c, n) for c in n.children]
    lib.expect(len(seen) == len(set(seen)), "listed-twice", "a node is listed twice in the tree")
    lib.expect(set(seen) == set(ids), "tree-nodes", lambda: "%d nodes in the tree, %d call paths" % (len(seen), len(ids)))
    order = sorted(by_path)
    for i in range(min(len(order), 40)):
        a, b = order[(i * 7919) % len(order)], order[(i * 104729 + 1) % len(order)]
        m = 0
        while m < min(len(a), len(b)) and a[m] == b[m]:
            m += 1
        meet = by_path[a].get_intersection(by_path[b])
        lib.expect(meet is by_path.get(a[:m]), "wrong-ancestor", lambda: "the deepest common caller of %s and %s is not the node of %s" % (a, b, a[:m]))
        for low in (-1, m - 1):
            up = by_path[a].get_node_list(low)
            want = [by_path[a[:k]] for k in range(len(a), low + 1, -1)]
            lib.expect([id(x) for x in up] == [id(x) for x in want], "wrong-chain", lambda: "the chain from %s up to level %d has %d nodes" % (a, low, len(up)))
    return paths, by_path


def run(plan, ctx, pp):
    with lib.sim(ctx, plan["tape"]):
        c = lib.build_case(plan, ctx, pp)
        if plan.get("via") == "load" and plan["env"]["cct"]:
            lib.expect(c.trace.cct is not None, "no-tree", "the tree was asked for with the load, but there is none")
            ctx.probe("tree_with_load")
            check(c.rows, c.trace, c.thread)
        lib.run_prefix(ctx, pp, c, plan["prefix"])
        lib.must("create_cct", c.trace.create_cct)
        paths, by_path = check(c.rows, c.trace, c.thread)
    ctx.log(len(c.rows), sorted((i, list(p)) for i, p in paths.items()))
    ctx.probe("call_paths", len(by_path))
    ctx.probe("calls", len(paths))
    joined = {}
    for p in by_path:
        joined.setdefault("->".join(p), set()).add(p)
    if any(len(v) > 1 for v in joined.values()):
        ctx.probe("ambiguous_joined_paths")
    ctx.nontrivial = len(by_path) > 1 and len(paths) > len(by_path)
