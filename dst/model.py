"""Reference models: plain-Python restatements of what the analyses must report.
Input is the list of event rows in table order."""
from collections import defaultdict


def loc_of(row, thread_col):
    return row.loc if thread_col else row.loc[0]


def match(rows, thread_col=True):
    """index -> partner index: a leave goes with the latest unmatched enter of its name."""
    partner = {}
    open_ = defaultdict(list)
    for i, r in enumerate(rows):
        key = (loc_of(r, thread_col), r.n)
        if r.k == "Enter":
            open_[key].append(i)
        elif r.k == "Leave" and open_[key]:
            e = open_[key].pop()
            partner[e], partner[i] = i, e
    return partner


def structure(rows, partner, thread_col=True):
    """parent, depth and children of every matched enter."""
    parent, depth, children = {}, {}, defaultdict(list)
    open_ = defaultdict(list)
    for i, r in enumerate(rows):
        if i not in partner:
            continue
        s = open_[loc_of(r, thread_col)]
        if r.k == "Enter":
            depth[i] = len(s)
            if s:
                parent[i] = s[-1]
                children[s[-1]].append(i)
            s.append(i)
        else:
            s.remove(partner[i])
    return parent, depth, children


def inc(rows, partner, values):
    return {i: values[partner[i]] - values[i] for i in partner if rows[i].k == "Enter"}


def exc(incs, children):
    out = dict(incs)
    for p, cs in children.items():
        for c in cs:
            out[p] = out[p] - incs[c]
    return out


def cct(rows, thread_col=True):
    """index of enter -> path (tuple of names); a leave closes the latest open enter of
    its name; unmatched enters count as open until the end."""
    paths = {}
    open_ = defaultdict(list)
    for i, r in enumerate(rows):
        s = open_[loc_of(r, thread_col)]
        if r.k == "Enter":
            path = (s[-1][1] if s else ()) + (r.n,)
            paths[i] = path
            s.append((r.n, path))
        elif r.k == "Leave":
            for j in range(len(s) - 1, -1, -1):
                if s[j][0] == r.n:
                    del s[j]
                    break
    return paths


def exclusive_intervals(rows, partner, thread_col=True):
    """[(name, start, end)] pieces of exclusive time, for well-nested matched calls."""
    out = []
    state = {}
    for i, r in enumerate(rows):
        if i not in partner:
            continue
        l = loc_of(r, thread_col)
        s, last = state.setdefault(l, ([], [None]))
        if s:
            out.append((rows[s[-1]].n, last[0], r.ts))
        last[0] = r.ts
        if r.k == "Enter":
            s.append(i)
        else:
            s.remove(partner[i])
    return out


def crossing(rows, partner, thread_col=True):
    """True if matched calls of one location overlap without nesting."""
    open_ = defaultdict(list)
    for i, r in enumerate(rows):
        if i not in partner:
            continue
        s = open_[loc_of(r, thread_col)]
        if r.k == "Enter":
            s.append(i)
        else:
            if s[-1] != partner[i]:
                return True
            s.pop()
    return False
