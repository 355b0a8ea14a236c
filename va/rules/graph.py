"""The call graph of the crate: what can run during a conversion."""
from ..prog import succ, rv_operands, rv_places

ENTRIES = ("jst::convert_avro", "jst::convert_bigquery")


def operands(body):
    """(block, position text, operand) of every operand of a body"""
    for i, b in enumerate(body["blocks"]):
        for s in b["s"]:
            if s[0] == "=":
                for o in rv_operands(s[2]):
                    yield i, s[3] if len(s) > 3 else None, o
        t = b["t"]
        if t[0] == "call":
            for o in [t[1]] + t[2]:
                yield i, b.get("sp"), o
        elif t[0] in ("switch", "assert"):
            yield i, b.get("sp"), t[1]


def where(sp):
    return "%s:%s" % (sp["f"], sp["l"]) if sp else "?"


def mentions(p, f):
    """(callee descriptor, position) of everything a function calls or passes on as a function value"""
    for body in [f["body"]] + f["promoted"]:
        for i, sp, o in operands(body):
            if o[0] != "const" or "ty" not in o[1]:
                continue
            t = p.types[o[1]["ty"]]
            if t["k"] == "fndef" and t.get("callee"):
                yield t["callee"], sp


def statics_of(f):
    for body in [f["body"]] + f["promoted"]:
        for i, sp, o in operands(body):
            if o[0] == "const" and o[1].get("k") == "static":
                yield o[1]["static"], sp


def thread_locals(f):
    for body in [f["body"]] + f["promoted"]:
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "unknown" and "ThreadLocalRef" in str(s[2][1]):
                    yield s[2][1], s[3] if len(s) > 3 else None


def callback_methods(p):
    """local methods that code outside the crate can call: implementations of foreign traits"""
    return [n for n, f in p.fns.items() if f["local"] and f.get("trait") and not f["trait"].startswith(p.crate + "::")]


def during_conversion(p):
    roots = [n for n in ENTRIES if n in p.fns]
    if len(roots) != len(ENTRIES):
        roots = [n for n, f in p.fns.items() if f["local"] and f.get("vis") == "Public"]
    # calls the compiler could not resolve to one body (trait objects, generic callees): every local implementation
    roots += callback_methods(p)
    return {n for n in p.reachable(roots)}, roots


# ---- control flow
def postdom(body):
    """immediate post-dominators over the normal (non-unwinding) control flow; None stands for the exit"""
    bl = body["blocks"]
    n = len(bl)
    EXIT = n
    sc = [succ(b["t"]) or [EXIT] for b in bl]
    pred = {}
    for i, ss in enumerate(sc):
        for s in ss:
            pred.setdefault(s, []).append(i)
    # reverse post-order of the reversed graph
    order, seen = [], set()
    stack = [(EXIT, iter(pred.get(EXIT, ())))]
    seen.add(EXIT)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(pred.get(s, ()))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    ip = {EXIT: EXIT}

    def meet(a, b):
        while a != b:
            while num[a] > num[b]:
                a = ip[a]
            while num[b] > num[a]:
                b = ip[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == EXIT:
                continue
            new = None
            for s in sc[b]:
                if s in ip and s in num:
                    new = s if new is None else meet(new, s)
            if new is not None and ip.get(b) != new:
                ip[b] = new
                ch = True
    return {b: (None if x == EXIT else x) for b, x in ip.items() if b != EXIT}


def region(body, start, stop):
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b == stop:
            continue
        seen.add(b)
        todo += succ(body["blocks"][b]["t"])
    return seen
