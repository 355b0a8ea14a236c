"""Abstract values (immutable tuples), joins, paths.

  ("c", kind, v)                 constant (bool, int, char)
  ("str", segs)                  string: ("lit", text) | ("t", term) | ("ch", sym, classes, mult)
  ("tup", vs)  ("adt", path, variant, fs)  ("clo", fn, captures)  ("fn", callee)
  ("seq", segs)                  Vec / slice / array
  ("map"|"set", kind, entries)   entries (key, value, mult, src); kind "hash" | "btree"
  ("iter", segs, pos, visited)   iterator
  ("ref", cell, path)            mutable reference
  ("sym", name) ("proj", base, step) ("app", f, args)   terms (opaque)
  ("phi", frozenset)             one of
  ("iterst", done, cur, rest)    collection element under mutable iteration
  ("top", why)

  segment: ("1", v) ("?", v) ("+", src, v, total) ("*", src, v, total) ("bag", segs, order)
"""

PHI_MAX = 24


class Diverge(Exception):
    """the call does not return"""


class Limit(Exception):
    """the analysis could not cope"""


def cbool(b):
    return TRUE if b else FALSE


TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
UNIT = ("tup", ())
EMPTY = ("seq", ())
OPT = "core::option::Option"
RES = "core::result::Result"
NONE = ("adt", OPT, 0, ())
UNINIT = ("uninit",)


def cint(n):
    return ("c", "int", n)


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


def lit(s):
    return ("str", (("lit", s),) if s else ())


def top(why):
    return ("top", why)


TERM = ("sym", "proj", "app")


def is_term(v):
    return v[0] in TERM


def is_opaque(v):
    return v[0] in TERM or v[0] == "top"


# ---------------------------------------------------------------- strings
def segs_of(v):
    if v[0] == "str":
        return v[1]
    if v[0] == "c" and v[1] == "char":
        return (("lit", v[2]),)
    if v[0] == "char":          # abstract character
        return (v[1],)
    return (("t", v),)


def mkstr(segs):
    out = []
    for s in segs:
        if s[0] == "lit":
            if not s[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + s[1])
                continue
        out.append(s)
    if len(out) == 1 and out[0][0] == "t":
        return out[0][1]
    return ("str", tuple(out))


def concat(*vs):
    segs = []
    for v in vs:
        segs += segs_of(v)
    return mkstr(segs)


def str_const(v):
    """the text of a constant string, else None"""
    if v[0] == "str" and all(s[0] == "lit" for s in v[1]):
        return "".join(s[1] for s in v[1])
    return None


# ---------------------------------------------------------------- phi / join
def phi_alts(v):
    return v[1] if v[0] == "phi" else (v,)


def mkphi(alts):
    s = set()
    for a in alts:
        if a[0] == "top":
            return a
        if a[0] == "phi":
            s |= a[1]
        else:
            s.add(a)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > PHI_MAX:
        return top("too many alternatives")
    return ("phi", frozenset(s))


def pmap(v, f):
    """maps f over the alternatives of v; None results are impossible alternatives"""
    if v[0] != "phi":
        return f(v)
    r = None
    for a in sorted(v[1], key=repr):
        x = f(a)
        if x is not None:
            r = join(r, x)
    return r


WEAK = {"1": "?", "+": "*", "?": "?", "*": "*", "0": "0"}


def join(a, b):
    if a is None:
        return b
    if b is None or a is b or a == b:
        return a
    ta, tb = a[0], b[0]
    if ta == "top":
        return a
    if tb == "top":
        return b
    if ta == UNINIT[0]:
        return b
    if tb == UNINIT[0]:
        return a
    if ta == "iterst" or tb == "iterst":
        if ta != tb:
            return join(resolve1(a), resolve1(b))
        return ("iterst", join(a[1], b[1]), join(a[2], b[2]), join(a[3], b[3]))
    if ta == tb:
        if ta == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            d = [i for i in range(len(a[3])) if a[3][i] != b[3][i]]
            if len(d) == 1 or any(x is None for x in a[3] + b[3]):
                return ("adt", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
        elif ta == "tup" and len(a[1]) == len(b[1]):
            d = [i for i in range(len(a[1])) if a[1][i] != b[1][i]]
            if len(d) == 1:
                return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        elif ta == "clo" and a[1] == b[1]:
            return ("clo", a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])))
        elif ta == "seq":
            r = join_segs(a[1], b[1])
            if r is not None:
                return ("seq", r)
        elif ta in ("map", "set") and a[1] == b[1]:
            return (ta, a[1], join_entries(a[2], b[2]))
        elif ta == "iter" and a[2:] == b[2:]:
            r = join_segs(a[1], b[1])
            if r is not None and len(r) == len(a[1]):
                return ("iter", r) + a[2:]
    return mkphi((a, b))


OPEN = ("open", "each", "part")


def join_flag(a, b):
    """how a repeated segment relates to the iteration that appends it: "open" once per iteration, "each" the same or
    no iteration yet, "part" in some iterations; True after it: once per element, False: for some"""
    if a == b:
        return a
    if {a, b} == {"open", "each"}:
        return "each"
    if a in OPEN and b in OPEN:
        return "part"
    return False


def join_segs(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif x[0] in ("1", "?") and y[0] in ("1", "?"):
                out.append(("1" if x[0] == y[0] == "1" else "?", join(x[1], y[1])))
            elif x[0] in ("+", "*") and y[0] in ("+", "*") and x[1] == y[1]:
                out.append(("+" if x[0] == y[0] == "+" else "*", x[1], join(x[2], y[2]), join_flag(x[3], y[3])))
            elif x[0] == "bag" and y[0] == "bag" and x[2] == y[2] and join_segs(x[1], y[1]) is not None:
                out.append(("bag", join_segs(x[1], y[1]), x[2]))
            else:
                return None
        return tuple(out)
    # b is a with extra segments: they become optional
    i = 0
    while i < len(a) and a[i] == b[i]:
        i += 1
    j = 0
    while j < len(a) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    if i + j < len(a):
        return None
    out = list(b[:i])
    for s in b[i:len(b) - j]:
        if s[0] in ("1", "?"):
            out.append(("?", s[1]))
        elif s[0] in ("+", "*"):
            # absent on the other path: only complete if that path means "no element" (so far)
            out.append(("*", s[1], s[2], "each" if s[0] == "+" and s[3] == "open" else s[3]))
        else:
            return None
    return tuple(out) + tuple(b[len(b) - j:] if j else ())


def join_entries(a, b):
    db = {e[0]: e for e in b}
    da = {e[0]: e for e in a}
    out = []
    # ("proc", K): the elements of class K visited so far; missing means that there was none yet
    for e in a:
        if e[0] in db:
            f = db[e[0]]
            m = e[2] if e[2] == f[2] else ("*" if "+" in (e[2], f[2]) or "*" in (e[2], f[2]) else "?")
            out.append((e[0], join(e[1], f[1]), m, e[3]))
        else:
            out.append((e[0], e[1], e[2] if e[0][0] == "proc" else WEAK[e[2]], e[3]))
    for e in b:
        if e[0] not in da:
            out.append((e[0], e[1], e[2] if e[0][0] == "proc" else WEAK[e[2]], e[3]))
    return tuple(out)


def resolve1(v):
    if v[0] == "iterst":
        r = None
        for x in v[1:]:
            if x is not None:
                r = join(r, x)
        return r
    return v


def resolve(v):
    """removes iteration states left behind by loops that stopped early"""
    t = v[0]
    if t == "iterst":
        return resolve(resolve1(v))
    if t == "adt":
        fs = tuple(resolve(x) if x is not None else x for x in v[3])
        return v if fs == v[3] else ("adt", v[1], v[2], fs)
    if t == "tup":
        return ("tup", tuple(resolve(x) for x in v[1]))
    if t == "seq":
        return ("seq", tuple(map_seg(s, resolve) for s in v[1]))
    if t in ("map", "set"):
        return (t, v[1], tuple((e[0], resolve(e[1]), e[2], e[3]) for e in v[2]))
    if t == "phi":
        return mkphi([resolve(x) for x in v[1]])
    return v


def map_seg(s, f):
    if s[0] in ("1", "?"):
        return (s[0], f(s[1]))
    if s[0] in ("+", "*"):
        return (s[0], s[1], f(s[2]), s[3])
    return ("bag", tuple(map_seg(x, f) for x in s[1]), s[2])


def seg_val(s):
    return s[1] if s[0] in ("1", "?") else s[2]


def flat(segs):
    """segments with bags opened (in the order in which an iteration may meet them)"""
    out = []
    for s in segs:
        if s[0] == "bag":
            out += flat(s[1])
        else:
            out.append(s)
    return out


def has_bag(segs):
    return any(s[0] == "bag" and s[2] == "hash" and (len(flat(s[1])) > 1 or any(x[0] in ("+", "*") for x in flat(s[1]))) for s in segs)


# ---------------------------------------------------------------- leaves / substitution
def leaves(v, acc=None):
    """symbols and generic elements occurring in v"""
    if acc is None:
        acc = set()
    if not isinstance(v, (tuple, frozenset)):
        return acc
    if isinstance(v, tuple) and v:
        if v[0] == "sym" or v[0] == "ch":
            acc.add(v)
            return acc
        if v[0] == "proj" and len(v) == 3 and v[2][0] in ("elem", "key", "val"):
            acc.add(v)
            return acc
        if v[0] == "ctr" or v[0] == "ix":
            acc.add(v)
            return acc
        if v[0] == "lit" or v[0] == "c":
            return acc
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            leaves(x, acc)
    return acc


def subst(v, m):
    if not isinstance(v, (tuple, frozenset)):
        return v
    if isinstance(v, tuple) and v in m:
        return m[v]
    if isinstance(v, frozenset):
        return frozenset(subst(x, m) for x in v)
    r = tuple(subst(x, m) for x in v)
    return v if r == v else r


# ---------------------------------------------------------------- printing
def show(v, depth=0):
    if v is None:
        return "_"
    if callable(v):
        return "a value as specified"
    t = v[0]
    if depth > 14:
        return "..."
    d = depth + 1
    if t == "c":
        return repr(v[2]) if v[1] != "bool" else ("true" if v[2] else "false")
    if t == "str":
        return "+".join(repr(s[1]) if s[0] == "lit" else (show(s[1], d) if s[0] == "t" else "%s[%s]%s" % (show(s[1], d) if isinstance(s[1], tuple) else s[1], ",".join(sorted(s[2])), s[3])) for s in v[1]) or "''"
    if t == "tup":
        return "(" + ", ".join(show(x, d) for x in v[1]) + ")"
    if t == "adt":
        n = v[1].split("::")[-1]
        if v[1] == OPT:
            return "None" if v[2] == 0 else "Some(%s)" % show(v[3][0], d)
        if v[1] == RES:
            return ("Ok(%s)" if v[2] == 0 else "Err(%s)") % show(v[3][0], d)
        return "%s#%d{%s}" % (n, v[2], ", ".join(show(x, d) for x in v[3]))
    if t == "seq":
        return "[" + ", ".join(show_seg(s, d) for s in v[1]) + "]"
    if t in ("map", "set"):
        return t + "{" + ", ".join("%s%s: %s" % (show(e[0], d), "" if e[2] == "1" else e[2], show(e[1], d)) for e in v[2]) + "}"
    if t == "sym":
        return v[1]
    if t == "proj":
        s = v[2]
        if s[0] == "f":
            return "%s.%s%s" % (show(v[1], d), "" if s[1] is None else "%s:" % s[1], s[2])
        return "%s.%s" % (show(v[1], d), s[0])
    if t == "app":
        return "%s(%s)" % (v[1].split("::")[-1] if "impl" not in v[1] and " as " not in v[1] else v[1], ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[2]))
    if t == "phi":
        return "{" + " | ".join(sorted(show(x, d) for x in v[1])) + "}"
    if t == "chmap":
        return "%s/" % (show(v[1], d) if isinstance(v[1], tuple) else v[1])
    if t == "iter":
        return "iter@%d[%s]" % (v[2], ", ".join(show_seg(s, d) for s in v[1]))
    if t == "ref":
        return "&mut " + str(v[1]) + str([p[0] for p in v[2]])
    if t == "clo":
        return "closure"
    return str(v)[:200]


def show_seg(s, d=0):
    if s[0] in ("1", "?"):
        return ("" if s[0] == "1" else "?") + show(s[1], d)
    if s[0] in ("+", "*"):
        return "%s%s%s" % (show(s[2], d), s[0], "" if s[3] is True else "(%s)" % (s[3] or "some"))
    return "bag<%s>[%s]" % (s[2] if isinstance(s[2], str) else "sorted", ", ".join(show_seg(x, d) for x in s[1]))
