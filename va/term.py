"""Termination: every recursive call found while analysing a cell works on less than the cell's input.

The size of an abstract value is the number of schema nodes in it: explicit nodes count one, an opaque part counts
as itself (at least one when it is a node)."""
from .values import *

NODES = ("jst::ast::Tag", "jst::jsonschema::Tag")


class Size:
    def __init__(self):
        self.n, self.star_n, self.vars, self.star_vars = 0, 0, [], []


def is_part(eng, t):
    """an opaque part of a schema"""
    bt = eng.ptype(t)
    return bt is not None and bt["k"] == "adt" and bt.get("local")


def is_node(eng, t):
    bt = eng.ptype(t)
    return bt is not None and bt["k"] == "adt" and bt["path"] in NODES


def measure(eng, v, rec, out, star=False, depth=0):
    if not isinstance(v, tuple) or not v or depth > 60:
        return
    h = v[0]
    if h in ("sym", "proj"):
        if is_part(eng, v):
            (out.star_vars if star else out.vars).append(v)
        return
    if h == "app":
        if v[1].split(":0")[0].split(":1")[0] in rec:
            # what a recursive call leaves of a part is not larger than the part
            for x in v[2]:
                measure(eng, x, rec, out, star, depth + 1)
        elif is_part(eng, v):
            (out.star_vars if star else out.vars).append(v)
        return
    if h == "adt":
        if v[1] in NODES:
            if star:
                out.star_n += 1
            else:
                out.n += 1
        for x in v[3]:
            if x is not None:
                measure(eng, x, rec, out, star, depth + 1)
        return
    if h == "seq":
        for s in v[1]:
            seg(eng, s, rec, out, star, depth)
        return
    if h in ("map", "set"):
        for e in v[2]:
            measure(eng, e[1], rec, out, star or e[2] not in ("1", "?"), depth + 1)
        return
    if h == "tup":
        for x in v[1]:
            measure(eng, x, rec, out, star, depth + 1)
        return
    if h == "phi":
        for x in v[1]:
            measure(eng, x, rec, out, star, depth + 1)


def seg(eng, s, rec, out, star, depth):
    if s[0] in ("1", "?"):
        measure(eng, s[1], rec, out, star, depth + 1)
    elif s[0] in ("+", "*"):
        measure(eng, s[2], rec, out, True, depth + 1)
    elif s[0] == "bag":
        for x in s[1]:
            seg(eng, x, rec, out, star, depth)


def ancestor(eng, t, roots):
    """the root part that t is inside of, and whether a node lies between"""
    if t in roots:
        return t, False
    strict = False
    x = t
    while x[0] == "proj" or x[0] == "app" and x[1] in ("get", "elem", "index", "value"):
        x = x[1] if x[0] == "proj" else x[2][0]
        if is_node(eng, x):
            strict = True
        if x in roots:
            return x, strict
    return None, False


def compare(eng, root, arg, rec):
    """'smaller', 'not smaller' or 'unknown'"""
    r, a = Size(), Size()
    for v in root:
        measure(eng, v, rec, r)
    for v in arg:
        measure(eng, v, rec, a)
    rv = r.vars + r.star_vars
    used = {}
    strict = 0
    for t in a.vars + a.star_vars:
        b, s = ancestor(eng, t, rv)
        if b is None:
            return "unknown"
        used.setdefault(b, []).append(t)
        strict += s
    exact = all(len(set(l)) == 1 and l[0] == b for b, l in used.items())
    # the same part twice, or overlapping parts
    for b, l in used.items():
        if len(l) > rv.count(b) and b not in r.star_vars:
            if len(set(l)) < len(l) or b in l:
                return "not smaller" if exact and set(used) >= set(rv) and a.n >= r.n else "unknown"
    rn = r.n
    if any(b in r.star_vars for b in used) or not rv:
        rn += r.star_n
    an = a.n + a.star_n
    unused = [b for b in r.vars if b not in used and is_node(eng, b)]
    if an < rn + len(unused) + strict:
        return "smaller"
    if exact and set(used) >= set(rv) and not r.star_vars and (used or arg == root):
        return "not smaller"
    return "unknown"


def obligations(eng):
    """[(caller, callee, verdict, argument)]"""
    rec = {n for n in eng.p.fns if eng.p.fns[n]["local"] and eng.p.recursive(n)}
    out = []
    for name, raw, nroot, stack in eng.cut_log:
        if nroot == 0:
            continue
        rid, args, _ = eng.root_log[nroot - 1]
        v = compare(eng, args, raw, rec)
        if v == "not smaller" and name != rid and name not in stack:
            v = "unknown"
        out.append((rid, name, v, raw))
    return out
