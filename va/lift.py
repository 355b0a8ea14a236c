"""A recursive function that another one only starts, with extra arguments of its own.

    fn f(x) { g(x, 0) }        fn g(x, depth) { .. g(child, depth + 1) .. }

The decision tables speak of f.  Calls of g are read as calls of f and f calls g with an unknown number: what holds
then for f holds for g whatever the number is, by induction over the node.  A deviation may need a number that never
occurs when the extra argument is not a counter; such deviations claim nothing (`open`)."""

INTS = ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize")


def callee(types, t):
    o = t[1]
    if o[0] != "const":
        return None
    c = types[o[1]["ty"]]
    return c.get("callee") if c else None


def wrapper(types, fns, f):
    """(callee id, for every argument of it: parameter number or None) of a function that only calls another one"""
    b = f.get("body")
    if not b or not f["local"] or f["closure"] or f["derived"]:
        return None
    n = b["argc"]
    origin = {i: i for i in range(1, n + 1)}
    calls = []
    at, seen = 0, set()
    while True:
        if at in seen:
            return None
        seen.add(at)
        x = b["blocks"][at]
        for s in x["s"]:
            if s[0] != "=":
                continue
            dst, r = s[1], s[2]
            src = None
            if r[0] == "use" and r[1][0] in ("copy", "move"):
                src = r[1][1]
            elif r[0] == "ref" and r[2][1] in (["*"], []):
                src = r[2]
                if r[2][1] == [] and src[0] in origin:
                    return None
            if dst[1]:
                return None
            if src is not None and src[0] in origin and src[1] in ([], ["*"]):
                if src[1] == ["*"] and r[0] == "use":
                    return None
                origin[dst[0]] = origin[src[0]]
            elif r[0] == "use" and r[1][0] == "const" or r[0] == "agg" and dst[0] != 0 and all(o[0] == "const" for o in r[-1]):
                pass
            elif dst[0] != 0 and not (r[0] in ("use", "ref")):
                return None
        t = x["t"]
        if t[0] in ("goto",):
            at = t[1]
        elif t[0] == "drop":
            nxt = [y for y in t[1:] if isinstance(y, int)]
            if not nxt:
                return None
            at = nxt[0]
        elif t[0] == "return":
            break
        elif t[0] == "call" and t[4] is not None:
            if any(o[0] in ("copy", "move") and o[1][0] in origin for o in t[2]):
                calls.append(t)
            elif t[3][0] == 0 or t[3][0] in origin or calls:
                return None
            at = t[4]
        else:
            return None
    if len(calls) != 1:
        return None
    t = calls[0]
    c = callee(types, t)
    if not c or not c.get("inst") or c["inst"] not in fns or c["inst"] == f["id"]:
        return None
    dst = t[3]
    if dst[1] or dst[0] != 0 and types[b["locals"][0]["ty"]]["s"] != "()":
        return None
    args = []
    for o in t[2]:
        if o[0] in ("copy", "move") and o[1][1] == [] and o[1][0] in origin:
            args.append(origin[o[1][0]])
        else:
            args.append(None)
    if sorted(a for a in args if a is not None) != list(range(1, n + 1)):
        return None
    return c["inst"], args, t


def calls_of(fns, types, f):
    for x in f["body"]["blocks"]:
        if x["t"][0] == "call":
            c = callee(types, x["t"])
            if c and c.get("inst"):
                yield x["t"], c["inst"]


def own_cycle(fns, types, g, f):
    """does g reach itself without passing through f? (closures count as part of the function around them)"""
    top = lambda i: fns[i]["parent"] if fns[i]["closure"] and fns[i]["parent"] in fns else i  # noqa: E731
    edges = {}
    for i, h in fns.items():
        if h.get("body") and h["local"]:
            edges.setdefault(top(i), set()).update(top(c) for _, c in calls_of(fns, types, h) if c in fns)
    todo, seen = [g], set()
    while todo:
        for c in edges.get(todo.pop(), ()):
            if c == g:
                return True
            if c != f and c not in seen and fns[c]["local"]:
                seen.add(c)
                todo.append(c)
    return False


def apply(fns, types):
    """rewrites the bodies; returns the names of the extra arguments that are no counters"""
    open_ = set()
    done = set()
    for i in sorted(fns):
        f = fns[i]
        f["id"] = i
    for i in sorted(fns):
        f = fns[i]
        w = wrapper(types, fns, f)
        if w is None:
            continue
        g, args, t = w
        if g in done or not fns[g]["local"] or fns[g]["closure"] or not fns[g].get("body") or not own_cycle(fns, types, g, i):
            continue
        done.add(g)
        # what calls g calls f
        old = types[t[1][1]["ty"]]
        new = dict(old)
        new["callee"] = dict(old["callee"], name=f["name"], inst=i, rpath=f["path"], krate=f["krate"])
        new["callee"].pop("trait", None)
        new["s"] = old["s"] + " [as " + i + "]"
        types.append(new)
        ty = len(types) - 1
        passed = {}
        order = sorted((a, j) for j, a in enumerate(args) if a is not None)
        for h in fns.values():
            if not h.get("body") or h["id"] == i:
                continue
            for x, c in list(calls_of(fns, types, h)):
                if c == g:
                    x[1] = ["const", {"ty": ty, "k": "fn"}]
                    for j, o in enumerate(x[2]):
                        passed.setdefault(j, []).append((h, o))
                    x[2] = [x[2][j] for _, j in order]
        # the extra arguments
        for j, a in enumerate(args):
            if a is None:
                pt = fns[g]["body"]["locals"][j + 1]["ty"]
                s = types[pt]["s"]
                o = t[2][j]
                if o[0] != "const" and not const_local(f, o):
                    continue
                if s in INTS or s in ("bool", "&str") or s.startswith("core::option::Option<"):
                    name = "extra:%s:%d" % (g, j)
                    t[2][j] = ["const", {"ty": pt, "k": "lifted", "name": name}]
                    if s not in INTS or not passed.get(j) or not all(counts(f2, o2) for f2, o2 in passed[j]):
                        open_.add(name)
    return open_


def const_local(f, o):
    """a temporary that holds a constant"""
    if o[0] not in ("copy", "move") or o[1][1]:
        return False
    ds = [s for x in f["body"]["blocks"] for s in x["s"] if s[0] == "=" and s[1] == o[1]]
    return len(ds) == 1 and (ds[0][2][0] == "use" and ds[0][2][1][0] == "const" or ds[0][2][0] == "agg" and not ds[0][2][4])


def counts(f, o):
    """an argument that is one more (or less) than something"""
    for _ in range(6):
        if o[0] not in ("copy", "move"):
            return False
        ds = [s for x in f["body"]["blocks"] for s in x["s"] if s[0] == "=" and s[1][0] == o[1][0] and not s[1][1]]
        if len(ds) != 1:
            return False
        r = ds[0][2]
        if r[0] == "use":
            o = r[1]
            continue
        return r[0] == "bin" and str(r[1])[:3] in ("Add", "Sub") and any(
            q[0] == "const" and q[1].get("k") == "int" and q[1].get("v") == 1 for q in r[2:4])
    return False
