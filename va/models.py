"""Behaviour of the standard library (and of heck, regex, serde_json, log) on abstract values."""
from .values import *
from . import absstr

RANGES = {"core::ops::range::Range", "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom", "core::ops::range::RangeTo",
          "core::ops::range::RangeToInclusive"}

T = {}


def model(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def derived_ok(name):
    """derived implementations that are modelled instead of analysed"""
    return name.rsplit("::", 1)[-1] in ("clone", "eq", "ne", "fmt", "hash", "partial_cmp", "cmp", "serialize", "deserialize", "assert_receiver_is_total_eq", "clone_from")


VEC = ("alloc::vec::Vec", "slice", "alloc::slice", "alloc::collections::vec_deque::VecDeque", "array", "core::array", "alloc::slice::<impl [T]>")


def lookup(name, rname, callee):
    f = T.get(name) or T.get(rname)
    if f is not None:
        return f
    head, _, m = name.rpartition("::")
    last = head.rsplit("::", 1)[-1]
    if head.startswith("core::iter::traits::iterator::Iterator") or head.startswith("core::iter::traits::double_ended") or head.startswith("core::iter::traits::exact_size"):
        return T.get("Iterator::" + m)
    if head.startswith("itertools"):
        return T.get("Iterator::" + m)
    if last in ("Vec", "slice", "VecDeque", "array") or head in VEC or head.startswith("alloc::slice") or head.startswith("core::slice"):
        return T.get("Vec::" + m)
    if last in ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "IndexMap", "Map"):
        return T.get(("Set::" if "Set" in last else "Map::") + m) or T.get("Map::" + m)
    if last == "Entry" or head.startswith("std::collections::hash::map::") or head.startswith("alloc::collections::btree::map"):
        return T.get(last + "::" + m) or T.get("Entry::" + m)
    if last in ("str", "String") or head in ("str", "core::str", "alloc::str", "alloc::string::String"):
        return T.get("str::" + m)
    if head == "char" or last == "char":
        return T.get("char::" + m)
    if head.startswith("core::fmt") or last in ("Formatter",):
        return T.get("fmt::" + m)
    if last in ("usize", "u64", "i64", "u32", "i32", "isize", "u8", "num", "u16") or head.startswith("core::num"):
        return T.get("int::" + m)
    return None


# ------------------------------------------------------------------ helpers
def D(st_eng, st, v):
    return st_eng.deref(st, v)


def tyname(eng, i):
    t = eng.p.types[eng.p.peel(i)] if i is not None else None
    return t


def is_coll(t, *names):
    return t is not None and t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] in names


def tmp(eng):
    eng.frame += 1
    return ("tmp", eng.frame)


def the_iter(eng, st, v):
    """iterator argument (by value, or &mut which is then used up)"""
    it = eng.iter_of(st, v)
    if it[0] == "phi":
        it = ("iter", (("*", it, top("alternative iterators"), False),), 0, False)
    if v[0] == "ref" and eng.deref(st, v)[0] in ("iter", "range"):
        eng.store(st, v, ("iter", (), 0, False))
    return it


def isegs(it):
    return it[1][it[2]:]


def mk_iter(segs):
    return ("iter", tuple(segs), 0, False)


def weaken(segs):
    out = []
    for s in segs:
        if s[0] in ("1", "?"):
            out.append(("?", s[1]))
        elif s[0] in ("+", "*"):
            out.append(("*",) + s[1:])
        else:
            out.append(("bag", tuple(weaken(s[1])), s[2]))
    return tuple(out)


def merge_opt(a, b):
    """emitted segments on two alternative paths"""
    if a is None:
        return b
    if a == b:
        return a
    r = join_segs(a, b)
    if r is not None:
        return r
    return weaken(a) + weaken(b)


def split_chars(v):
    """single-class versions of an abstract character"""
    if v[0] == "char" and len(v[1][2]) > 1:
        s = v[1]
        return [(c, ("char", ("ch", s[1], frozenset([c]), "1"))) for c in sorted(absstr.classes_of(v))]
    return None


def split_elem(v):
    """the same of a character with its position"""
    if v[0] == "tup" and sum(x[0] == "char" for x in v[1]) == 1:
        i = next(i for i, x in enumerate(v[1]) if x[0] == "char")
        cs = split_chars(v[1][i])
        return cs and [(c, ("tup", v[1][:i] + (x,) + v[1][i + 1:])) for c, x in cs]
    return split_chars(v)


def emit(eng, st, segs, fn):
    """segments produced by fn(st, elem) -> segments for every element"""
    out = []
    for s in segs:
        if s[0] == "bag":
            inner = emit(eng, st, s[1], fn)
            out.append(("bag", inner, s[2]))
        elif s[0] == "1":
            out += fn(st, s[1])
        elif s[0] == "?":
            s2 = st.copy()
            try:
                r = fn(s2, s[1])
            except Diverge:
                continue
            st.assign(_join_state(st, s2))
            out += weaken(r)
        else:
            cell = tmp(eng)
            st.cells[cell] = None

            def body(st2, e, m):
                r = fn(st2, e)
                st2.cells[cell] = ("seq", tuple(r))
            del st.cells[cell]
            eng.generic(st, s, body)
            v = st.cells.pop(cell, None)
            if v is None:
                continue
            if v[0] != "seq":
                out.append(("*", s[1], top("elements"), False))
                continue
            for x in v[1]:
                if x[0] == "1":
                    out.append((s[0], s[1], x[1], s[3]))
                elif x[0] == "?":
                    out.append(("*", s[1], x[1], False))
                elif x[0] in ("+", "*"):
                    out.append(("+" if s[0] == "+" and x[0] == "+" else "*", ("nest", s[1], x[1]), x[2], s[3] and x[3]))
                else:
                    out.append(x)
    return tuple(out)


def _join_state(a, b):
    from .engine import join_state
    return join_state(a, b)


def call1(eng, st, f, args, site):
    return eng.call_value(st, f, args, site)


def per_class(eng, st, f, v, site):
    """f on every single class of an abstract character: list of (class, result) or None"""
    cs = split_chars(v)
    if cs is None:
        return None
    out = []
    for c, cv in cs:
        out.append((c, cv, call1(eng, st, f, [cv], site)))
    return out


# ------------------------------------------------------------------ integers
def int_cmp(eng, st, op, a, b):
    a, b = norm_int(eng, a), norm_int(eng, b)
    if op in ("ne", "Ne"):
        r = int_cmp(eng, st, "eq", a, b)
        return None if r is None else not r
    if op in ("gt", "Gt"):
        return int_cmp(eng, st, "lt", b, a)
    if op in ("ge", "Ge"):
        r = int_cmp(eng, st, "lt", a, b)
        return None if r is None else not r
    if op in ("le", "Le"):
        r = int_cmp(eng, st, "lt", b, a)
        return None if r is None else not r
    op = op.lower()
    if a[0] == "c" and b[0] == "c":
        x, y = a[2], b[2]
        return x == y if op == "eq" else x < y
    if a == b:
        return op == "eq"
    if a[0] == "top" or b[0] == "top":
        return None
    if a[0] == "phi" or b[0] == "phi":
        rs = {int_cmp(eng, st, op, x, y) for x in phi_alts(a) for y in phi_alts(b)}
        return rs.pop() if len(rs) == 1 else None
    # lengths are never negative
    if op == "lt" and b == cint(0) and a[0] in ("app", "ix", "ctr"):
        return False
    if op == "eq" and repr(a) > repr(b):
        a, b = b, a
    # small facts about lengths of sequences with a definite part
    r = len_cmp(eng, st, op, a, b)
    if r is not None:
        return r
    return eng.truth(st, ("app", op, (a, b)))


def len_bounds(v):
    """(min, max or None) of the number of elements of a sequence"""
    lo, hi = 0, 0
    for s in flat(v):
        if s[0] == "1":
            lo += 1
            hi = None if hi is None else hi + 1
        elif s[0] == "?":
            hi = None if hi is None else hi + 1
        else:
            hi = None
            if s[0] == "+":
                lo += 1
    return lo, hi


def int_bounds(v):
    if v[0] == "c":
        return v[2], v[2]
    if v[0] == "app" and v[1] == "len" and v[2][0][0] == "seq":
        return len_bounds(v[2][0][1])
    if v[0] == "app" and v[1] == "str.len":
        lo = 0
        for s in segs_of(v[2][0]):
            if s[0] == "lit":
                lo += len(s[1])
            elif s[0] == "ch" and s[3] != "*":
                lo += 1
        return lo, None
    if v[0] == "app" and v[1] == "add":
        (a, b), (c, d) = int_bounds(v[2][0]), int_bounds(v[2][1])
        return (None if a is None or c is None else a + c), (None if b is None or d is None else b + d)
    if v[0] == "app" and v[1] == "len" and v[2][0] in NONEMPTY:
        return 1, None
    if v[0] in ("app", "ix", "ctr") and (v[0] != "app" or v[1] in ("len", "str.count")):
        return 0, None
    return None, None


def len_cmp(eng, st, op, a, b):
    la, ha = int_bounds(a)
    lb, hb = int_bounds(b)
    if op == "lt":
        if ha is not None and lb is not None and ha < lb:
            return True
        if la is not None and hb is not None and la >= hb:
            return False
    else:
        if ha is not None and lb is not None and ha < lb:
            return False
        if la is not None and hb is not None and la > hb:
            return False
    return None


def norm_int(eng, v):
    return v


def cmp_term(op, a, b):
    if op == "Ne":
        return ("app", "not", (cmp_term("Eq", a, b),))
    if op == "Gt":
        return ("app", "lt", (b, a))
    if op == "Ge":
        return ("app", "not", (("app", "lt", (a, b)),))
    if op == "Le":
        return ("app", "not", (("app", "lt", (b, a)),))
    if op == "Eq":
        return ("app", "eq", (a, b) if repr(a) <= repr(b) else (b, a))
    return ("app", "lt", (a, b))


def add(a, b):
    if a[0] == "c" and b[0] == "c":
        return cint(a[2] + b[2])
    if a == cint(0):
        return b
    if b == cint(0):
        return a
    if a[0] == "top" or b[0] == "top":
        return top("sum")
    if a[0] == "app" and a[1] == "add" and a[2][1][0] == "c" and b[0] == "c":
        return add(a[2][0], cint(a[2][1][2] + b[2]))
    if a[0] == "c":
        a, b = b, a
    return ("app", "add", (a, b))


def sub(a, b):
    if a[0] == "c" and b[0] == "c":
        return cint(a[2] - b[2])
    if a == b:
        return cint(0)
    if b == cint(0):
        return a
    if a[0] == "top" or b[0] == "top":
        return top("difference")
    return ("app", "sub", (a, b))


def binop(eng, st, op, a, b):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if a[0] == "discr" or b[0] == "discr":
        if op in ("Eq", "Ne"):
            va = a[1] if a[0] == "discr" else a
            vb = b[1] if b[0] == "discr" else b
            if a[0] == "discr" and b[0] == "discr":
                if va == vb:
                    return cbool(op == "Eq")
                return top("comparison of kinds")
            d, c = (a, b) if a[0] == "discr" else (b, a)
            if c[0] == "c":
                t = ("app", "kindis", (d[1], c))
                r = eng.truth(st, t)
                if r is None and d[1][0] == "phi":
                    rs = set()
                    for x in d[1][1]:
                        if x[0] == "adt":
                            rs.add(eng.vdiscr(x[1], x[2]) == c[2])
                        else:
                            rs.add(None)
                    r = rs.pop() if len(rs) == 1 else None
                if r is not None:
                    return cbool(r == (op == "Eq"))
                return t if op == "Eq" else ("app", "not", (t,))
        return top("kind arithmetic")
    isb = (a[0] == "c" and a[1] == "bool") or (b[0] == "c" and b[1] == "bool")
    if op in ("BitOr", "BitAnd", "BitXor"):
        ta, tb = eng.truth(st, a), eng.truth(st, b)
        if a[0] == "c" and a[1] == "int":
            if b[0] == "c":
                f = {"BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y, "BitXor": lambda x, y: x ^ y}[op]
                return cint(f(a[2], b[2]))
            return ("app", op, (a, b))
        if op == "BitOr":
            return b_or(eng, st, a, b)
        if op == "BitAnd":
            return b_and(eng, st, a, b)
        if ta is not None and tb is not None:
            return cbool(ta != tb)
        return b_xor(a, b, ta, tb)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        if isb or (a[0] == "app" and a[1] in ("and", "or", "not")) or (b[0] == "app" and b[1] in ("and", "or", "not")):
            ta, tb = eng.truth(st, a), eng.truth(st, b)
            if op in ("Eq", "Ne"):
                if ta is not None and tb is not None:
                    return cbool((ta == tb) == (op == "Eq"))
                if tb is not None:
                    return a if tb == (op == "Eq") else b_not(a)
                if ta is not None:
                    return b if ta == (op == "Eq") else b_not(b)
        if (a[0] in ("char",) or (a[0] == "c" and a[1] == "char")) or (b[0] == "char" or (b[0] == "c" and b[1] == "char")):
            return char_cmp(eng, st, op, a, b)
        r = int_cmp(eng, st, op, a, b)
        if r is not None:
            return cbool(r)
        if a[0] == "top" or b[0] == "top" or "phi" in (a[0], b[0]):
            return top("comparison")
        return cmp_term(op, a, b)
    if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        if op[0] == "A":
            return ("tup", (add(a, b), FALSE))
        if op[0] == "S":
            r = int_cmp(eng, st, "lt", a, b)
            ov = cbool(r) if r is not None else ("app", "lt", (a, b))
            if "top" in (a[0], b[0]) or "phi" in (a[0], b[0]):
                ov = top("overflow")
            return ("tup", (sub(a, b), ov))
        return ("tup", (("app", "mul", (a, b)), FALSE))
    if op in ("Add", "AddUnchecked"):
        return add(a, b)
    if op in ("Sub", "SubUnchecked"):
        return sub(a, b)
    if a[0] == "c" and b[0] == "c":
        try:
            return cint({"Mul": lambda x, y: x * y, "Div": lambda x, y: x // y, "Rem": lambda x, y: x % y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y}[op](a[2], b[2]))
        except (KeyError, ZeroDivisionError, TypeError):
            pass
    if "top" in (a[0], b[0]):
        return top(op)
    return ("app", op, (a, b))


def b_not(a):
    if a[0] == "c":
        return cbool(not a[2])
    if a[0] == "app" and a[1] == "not":
        return a[2][0]
    if a[0] == "phi":
        return mkphi([b_not(x) for x in a[1]])
    if a[0] == "top":
        return a
    return ("app", "not", (a,))


def b_or(eng, st, a, b):
    ta, tb = eng.truth(st, a), eng.truth(st, b)
    if ta or tb:
        return TRUE
    if ta is False:
        return b if tb is None else FALSE
    if tb is False:
        return a
    if a == b:
        return a
    if not is_term(a) or not is_term(b):
        return top("disjunction")
    return ("app", "or", (a, b) if repr(a) <= repr(b) else (b, a))


def b_and(eng, st, a, b):
    ta, tb = eng.truth(st, a), eng.truth(st, b)
    if ta is False or tb is False:
        return FALSE
    if ta:
        return b if tb is None else TRUE
    if tb:
        return a
    if a == b:
        return a
    if not is_term(a) or not is_term(b):
        return top("conjunction")
    return ("app", "and", (a, b) if repr(a) <= repr(b) else (b, a))


def b_xor(a, b, ta, tb):
    if ta is not None:
        a, b, ta, tb = b, a, tb, ta
    if tb is not None:
        return b_not(a) if tb else a
    return top("xor")


def of_byte(v):
    """a byte as the character it encodes; UTF-8 bytes above 127 are one class"""
    if v[0] == "c" and v[1] == "int":
        return ("c", "char", chr(v[2]) if v[2] < 128 else "\u20ac")
    return v


def char_cmp(eng, st, op, a, b):
    if any(x[0] == "c" and x[1] == "int" and x[2] > 127 for x in (a, b)):
        return top("byte comparison")
    a, b = of_byte(a), of_byte(b)
    if op in ("Eq", "Ne"):
        c, o = (a, b) if a[0] == "c" else (b, a)
        if c[0] == "c":
            r = absstr.char_is(eng, st, o, c[2])
            if r is not None:
                return cbool(r == (op == "Eq"))
        return top("character comparison")
    if b[0] == "c" and a[0] != "c":
        k = b[2]
        r = {"Lt": absstr.char_range(a, "\0", chr(max(ord(k) - 1, 0))), "Le": absstr.char_range(a, "\0", k),
             "Gt": absstr.char_range(a, chr(ord(k) + 1), "\U0010ffff"), "Ge": absstr.char_range(a, k, "\U0010ffff")}[op]
    elif a[0] == "c" and b[0] != "c":
        return char_cmp(eng, st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
    else:
        r = {"Lt": a[2] < b[2], "Le": a[2] <= b[2], "Gt": a[2] > b[2], "Ge": a[2] >= b[2]}[op]
    return cbool(r) if r is not None else top("character comparison")


def unop(eng, st, op, a):
    if op == "Not":
        r = eng.truth(st, a)
        if r is not None:
            return cbool(not r)
        if a[0] == "c" and a[1] == "int":
            return ("app", "bitnot", (a,))
        return b_not(a)
    if op == "PtrMetadata":
        return seq_len(eng, st, a)
    if op == "Neg" and a[0] == "c":
        return cint(-a[2])
    return top(op)


def cast(eng, st, kind, v, ty):
    if kind.startswith("IntToInt"):
        v = eng.deref(st, v)
        if v[0] == "c" and v[1] == "char":
            return cint(ord(v[2]))
        if v[0] == "c" and v[1] == "bool":
            return cint(int(v[2]))
    return v


def seq_len(eng, st, v):
    v = eng.deref(st, v)
    if v[0] in ("str",) or (is_term(v) and (eng.ptype(v) or {}).get("k") == "str"):
        return str_len(eng, v)
    s = v if v[0] == "seq" else (eng.as_seq(v) if v[0] != "phi" else None)
    if v[0] in ("map", "set"):
        segs = [(e[2],) for e in v[2]]
        if all(x[0] == "1" for x in segs):
            return cint(len(segs))
        return ("app", "len", (v,))
    if v[0] == "phi":
        return mkphi([seq_len(eng, st, x) for x in v[1]])
    if s is None:
        return top("length")
    fs = flat(s[1])
    if all(x[0] == "1" for x in fs):
        return cint(len(fs))
    if is_term(v):
        return ("app", "len", (v,))
    return seg_len(s[1])


NONEMPTY = set()


def seg_len(segs):
    """length as a sum: one symbol per repeated source"""
    n = 0
    terms = []
    for x in flat(segs):
        if x[0] == "1":
            n += 1
        elif x[0] in ("+", "*") and x[3] is True:
            src = x[1]
            src = src if isinstance(src, tuple) and is_term(src) else ("sym", repr(src))
            if x[0] == "+":
                NONEMPTY.add(src)
            terms.append(("app", "len", (src,)))
        else:
            return ("app", "len", (("seq", tuple(segs)),))
    r = None
    for t in terms:
        r = t if r is None else add(r, t)
    return add(r, cint(n)) if n else r


def seg_count_range(eng, st, end):
    return None


def range_iter(eng, st, v):
    a = eng.deref(st, v[1])
    if len(v) == 2:
        return ("iter", (("*", ("from", a), ("ctr", ("from", a), a, 1), True),), 0, False)
    b = eng.deref(st, v[2])
    incl = len(v) > 3 and v[3] == TRUE
    if a[0] == "c" and b[0] == "c" and a[1] == "int":
        hi = b[2] + (1 if incl else 0)
        if hi - a[2] <= 1200:
            return mk_iter([("1", cint(i)) for i in range(a[2], hi)])
    if "top" in (a[0], b[0]):
        return mk_iter([("*", ("range", a, b), top("counter"), False)])
    src = ("range", a, b)
    r = int_cmp(eng, st, "lt", a, b) if not incl else None
    # a range over the positions of a known sequence visits its segments
    mir = mirror(a, b) if not incl else None
    if mir is not None:
        return mk_iter(mir)
    el = ("ix", src)
    if r is True:
        return mk_iter([("+", src, el, True)])
    if r is False and not incl:
        return mk_iter([])
    return mk_iter([("*", src, el, True)])


def mirror(a, b):
    if a[0] != "c" or b[0] != "app":
        return None
    terms, n = [], 0
    t = b
    while t[0] == "app" and t[1] == "add":
        if t[2][1][0] == "c":
            n += t[2][1][2]
        else:
            terms.append(t[2][1])
        t = t[2][0]
    terms.append(t)
    if n == 0 and len(terms) == 1 and terms[0][1] == "len" and a == cint(0):
        x = terms[0][2][0]
        return [("*", x, ("ix", x), True)]
    return None


def find_index(eng, st, base, ix):
    """segment number that an index selects: int | None"""
    if ix[0] == "c":
        n = ix[2]
        for i, s in enumerate(base[1]):
            if s[0] != "1":
                return None
            if i == n:
                return i
        return None
    if ix[0] == "ix":
        for i, s in enumerate(base[1]):
            if s[0] in ("+", "*") and s[1] == ix[1]:
                return i
    return None


def index_place(eng, st, fr, base, e):
    base = eng.deref(st, base)
    if base[0] == "phi":
        r = None
        for a in base[1]:
            r = join(r, index_place(eng, st, fr, a, e))
        return r
    s = eng.as_seq(base)
    if s is None:
        return top("index")
    i = elem_no(eng, st, fr, s, e)
    if i is not None:
        return seg_val(s[1][i]) if s[1][i][0] != "bag" else top("index")
    if e[0] == "ss":
        return subslice(s, e)
    return any_elem(s[1])


def any_elem(segs):
    r = None
    for x in flat(segs):
        r = join(r, seg_val(x))
    return r if r is not None else top("element of empty sequence")


def subslice(s, e):
    segs = list(s[1])
    frm, to, from_end = e[1], e[2], e[3]
    for _ in range(frm):
        if segs and segs[0][0] == "1":
            segs.pop(0)
        else:
            return ("seq", tuple(weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in segs])))
    n = to if from_end else 0
    if not from_end:
        k = to - frm
        return ("seq", tuple(segs[:k])) if all(x[0] == "1" for x in segs[:k]) else top("subslice")
    for _ in range(n):
        if segs and segs[-1][0] == "1":
            segs.pop()
        else:
            return top("subslice")
    return ("seq", tuple(segs))


def elem_no(eng, st, fr, s, e):
    if e[0] == "i":
        ix = eng.deref(st, st.cells.get((fr, e[1]), top("index")))
        return find_index(eng, st, s, ix)
    if e[0] == "ci":
        n, from_end = e[1], e[2]
        segs = s[1]
        if not from_end:
            if n < len(segs) and all(x[0] == "1" for x in segs[:n + 1]):
                return n
            if n < len(segs) and all(x[0] == "1" for x in segs[:n]) and segs[n][0] == "+":
                return n
        else:
            if n <= len(segs) and all(x[0] == "1" for x in segs[len(segs) - n:]):
                return len(segs) - n
    return None


def index_loc(eng, st, fr, base, e):
    base = eng.deref(st, base)
    if base[0] != "seq":
        return None
    i = elem_no(eng, st, fr, base, e)
    return ("seg", i) if i is not None else None


# ------------------------------------------------------------------ identity-like
@model("core::clone::Clone::clone", "core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref",
       "alloc::borrow::ToOwned::to_owned", "alloc::boxed::Box::new", "alloc::rc::Rc::new", "alloc::sync::Arc::new", "core::hint::must_use",
       "core::hint::black_box", "alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::borrow::Cow::into_owned", "core::mem::manually_drop::ManuallyDrop::new",
       "Vec::to_vec", "Vec::into_vec", "Vec::as_slice", "Vec::into_boxed_slice", "str::as_str", "str::to_owned", "str::to_string", "str::into_boxed_str",
       "str::into_string", "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::peekable", "Iterator::fuse",
       "core::convert::identity", "Vec::as_ref", "str::as_ref", "str::clone", "core::option::Option::cloned", "core::option::Option::copied",
       "core::option::Option::as_deref", "str::as_bytes", "str::into_bytes", "str::deref",
       "core::iter::traits::iterator::Iterator::by_ref", "alloc::boxed::Box::leak", "core::result::Result::as_ref", "core::option::Option::as_ref",
       "core::result::Result::as_deref", "core::borrow::BorrowMut::borrow_mut", "alloc::boxed::Box::into_inner", "core::result::Result::cloned", "core::result::Result::copied", "str::trim_matches_none")
def identity(eng, st, c, args, site, dty):
    v = args[0]
    n = c["name"].rsplit("::", 1)[-1]
    if n in ("by_ref", "borrow_mut", "leak"):
        return v
    if n == "new" and v[0] == "ref":
        return v
    v = eng.deref(st, v)
    if v[0] == "adt" and v[1] == LAZY and n in ("deref", "borrow", "as_ref"):
        return eng.call_value(st, v[3][0], [], site)
    return v


LAZY = "std::sync::LazyLock"


@model("std::sync::lazy_lock::LazyLock::new", "core::cell::lazy::LazyCell::new")
def lazy_new(eng, st, c, args, site, dty):
    return ("adt", LAZY, 0, (args[0],))


@model("std::sync::lazy_lock::LazyLock::force", "core::cell::lazy::LazyCell::force")
def lazy_force(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    return eng.call_value(st, v[3][0], [], site) if v[0] == "adt" and v[1] == LAZY else NotImplemented


@model("std::sync::once_lock::OnceLock::new", "core::cell::once::OnceCell::new")
def once_new(eng, st, c, args, site, dty):
    return ("adt", "std::sync::OnceLock", 0, (NONE,))


@model("std::sync::once_lock::OnceLock::get_or_init", "core::cell::once::OnceCell::get_or_init")
def once_init(eng, st, c, args, site, dty):
    """a cell that every conversion finds empty, or filled with what this initializer computes: the effects rule sees to
    it that the initializer of a global cell depends on nothing else"""
    v = eng.deref(st, args[0])
    if v[0] != "adt" or v[1] != "std::sync::OnceLock":
        return NotImplemented
    x = v[3][0]
    if x == NONE:
        r = eng.call_value(st, args[1], [], site)
        if args[0][0] == "ref":
            eng.store(st, args[0], ("adt", v[1], 0, (some(r),)))
        return r
    return NotImplemented if x[0] != "adt" else x[3][0]


@model("core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "Vec::as_mut_slice")
def deref_mut(eng, st, c, args, site, dty):
    return args[0]


@model("core::mem::drop", "core::mem::forget", "log::__private_api::enabled", "core::fmt::Arguments::as_str", "std::io::stdio::_eprint", "core::intrinsics::cold_path")
def unit(eng, st, c, args, site, dty):
    return UNIT


@model("log::__private_api::log", "log::__private_api_log", "log::__private_api::log_impl")
def log_(eng, st, c, args, site, dty):
    return UNIT


@model("log::max_level")
def log_level(eng, st, c, args, site, dty):
    return eng.app("log::max_level", [], dty)


@model("alloc::boxed::Box::new_uninit", "core::mem::maybe_uninit::MaybeUninit::uninit")
def uninit_(eng, st, c, args, site, dty):
    return UNINIT


@model("core::mem::discriminant")
def mem_discriminant(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if v[0] == "phi":
        r = None
        for x in phi_alts(v):
            y = mem_discriminant(eng, st, c, [x], site, dty)
            r = y if r is None else join(r, y)
        return r
    bt = eng.ptype(v) if is_term(v) else None
    if v[0] == "adt":
        return ("adt", "@discriminant", v[2], ())
    if bt is not None and bt["k"] == "adt" and all(not x["fields"] for x in bt["variants"]):
        # nothing but the variant
        return v
    r = eng.decide(st, v) if is_term(v) else None
    return ("adt", "@discriminant", r, ()) if r is not None else ("app", "discriminant", (v,))


@model("core::mem::take")
def mem_take(eng, st, c, args, site, dty):
    old = eng.deref(st, args[0])
    t = eng.p.types[c["targs"][0]]
    eng.store(st, args[0], default_of(eng, st, c["targs"][0], site))
    return old


@model("core::mem::replace", "core::option::Option::replace_")
def mem_replace(eng, st, c, args, site, dty):
    old = eng.deref(st, args[0])
    eng.store(st, args[0], args[1])
    return old


@model("core::mem::swap")
def mem_swap(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    eng.store(st, args[0], b)
    eng.store(st, args[1], a)
    return UNIT


@model("core::option::Option::take")
def opt_take(eng, st, c, args, site, dty):
    old = eng.deref(st, args[0])
    eng.store(st, args[0], NONE)
    return old


@model("core::option::Option::insert")
def opt_insert(eng, st, c, args, site, dty):
    eng.store(st, args[0], some(args[1]))
    return sub_ref(args[0], ("f", 1, 0)) or args[1]


@model("core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert")
def opt_get_or_insert(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    var = eng.variant(st, v)
    if var == 1:
        return sub_ref(args[0], ("f", 1, 0)) or top("slot")
    new = args[1] if c["name"].endswith("insert") else eng.call_value(st, args[1], [], site)
    if var == 0:
        eng.store(st, args[0], some(new))
    else:
        eng.store(st, args[0], some(join(eng.get(v, ("f", 1, 0)) or new, new)))
    return sub_ref(args[0], ("f", 1, 0)) or top("slot")


def sub_ref(r, step):
    if r[0] == "ref":
        return ("ref", r[1], r[2] + (step,))
    return None


def last_ref(eng, st, ref):
    """follows references to references"""
    n = 0
    while ref[0] == "ref":
        v = eng.read(st, ref[1], ref[2])
        if v[0] != "ref":
            return ref
        ref = v
        n += 1
        if n > 30:
            break
    return ref


def default_of(eng, st, ti, site):
    t = eng.p.types[ti]
    k = t["k"]
    if k == "bool":
        return FALSE
    if k in ("int", "uint"):
        return cint(0)
    if k == "char":
        return ("c", "char", "\0")
    if k in ("str",):
        return lit("")
    if k == "ref":
        return default_of(eng, st, t["args"][0], site)
    if k == "tuple":
        return ("tup", tuple(default_of(eng, st, a, site) for a in t["args"]))
    if k == "adt":
        n = t["path"].rsplit("::", 1)[-1]
        if n == "Option":
            return NONE
        if n == "String":
            return lit("")
        if n in ("Vec", "VecDeque"):
            return EMPTY
        if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            return empty_coll(n)
        if n == "Box":
            return default_of(eng, st, t["args"][0], site)
        if t.get("local"):
            for f in eng.p.fns.values():
                if f["local"] and f.get("trait", "") == "core::default::Default" and f.get("self_ty") == t["s"] and f["name"].endswith("::default"):
                    return eng.run(f, [], st)
        else:
            g = eng.linked("<%s as core::default::Default>::default" % t["s"])
            if g is not None:
                return eng.run_linked(g, [], st)
        if t["path"] == "serde_json::value::Value":
            return ("adt", t["path"], 0, ())
    return top("default of " + t["s"])


def empty_coll(n):
    return ("set" if "Set" in n else "map", "btree" if "BTree" in n else "hash", ())


@model("core::default::Default::default")
def default(eng, st, c, args, site, dty):
    r = default_of(eng, st, dty, site)
    return NotImplemented if r[0] == "top" and c.get("inst") else r


# ------------------------------------------------------------------ conversions
@model("alloc::string::ToString::to_string")
def to_string(eng, st, c, args, site, dty):
    return display(eng, st, args[0], c["targs"][0])


def display(eng, st, v, ti):
    v = eng.deref(st, v)
    t = eng.p.types[eng.p.peel(ti)] if ti is not None else None
    if v[0] == "c" and v[1] == "int":
        return lit(str(v[2]))
    if v[0] == "c" and v[1] == "bool":
        return lit("true" if v[2] else "false")
    if v[0] == "c" and v[1] == "char":
        return lit(v[2])
    if v[0] == "char":
        return ("str", (v[1],))
    if v[0] in ("ix", "ctr"):
        return eng.app("dec", [v])
    if t is not None and (t["k"] == "str" or (t["k"] == "adt" and t["path"].endswith("::String")) or t["k"] == "char"):
        return v
    if t is not None and t["k"] in ("int", "uint"):
        if v[0] == "phi":
            return mkphi([display(eng, st, x, ti) for x in v[1]])
        return eng.app("dec", [v]) if v[0] != "top" else v
    if v[0] == "str":
        return v
    if v[0] == "top":
        return v
    return eng.app("display", [eng.deepderef(st, v)])


@model("core::convert::Into::into", "core::convert::From::from", "core::convert::TryFrom::try_from", "core::convert::TryInto::try_into",
       "core::str::traits::FromStr::from_str", "str::parse")
def into(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    if n in ("try_from", "try_into", "from_str", "parse"):
        return NotImplemented
    src = c["targs"][0] if n == "into" else c["targs"][1]
    if n == "from" and c.get("inst") and eng.p.fns.get(c["inst"], {}).get("local"):
        return NotImplemented
    ts, td = eng.p.types[src], eng.p.types[dty]
    if ts["s"] == td["s"]:
        return args[0]
    # a conversion written in this crate
    for f in eng.p.fns.values():
        if f["local"] and f.get("trait", "") == "core::convert::From" and f.get("self_ty") == td["s"] and (f.get("trait_args") or [None])[-1] == ts["s"]:
            return eng.call({"name": f["name"], "inst": f["id"], "targs": c["targs"]}, args, st, site, dty)
        if f["local"] and n == "into" and f.get("trait", "") == "core::convert::Into" and f.get("self_ty") == ts["s"] and (f.get("trait_args") or [None])[-1] == td["s"]:
            return eng.call({"name": f["name"], "inst": f["id"], "targs": c["targs"]}, args, st, site, dty)
    return convert(eng, st, args[0], src, dty)


def convert(eng, st, v, src, dst):
    ts, td = eng.p.types[eng.p.peel(src)], eng.p.types[eng.p.peel(dst)]
    if td["k"] == "adt":
        n = td["path"].rsplit("::", 1)[-1]
        if n == "Option":
            return some(v)
        if n == "String":
            return display(eng, st, v, src)
        if n in ("Vec", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "VecDeque"):
            if ts["k"] == "str":
                return eng.deref(st, v)
            return collect_into(eng, st, isegs(the_iter(eng, st, v)), dst)
        if td["path"] == "serde_json::value::Value":
            return eng.app("json", [eng.deepderef(st, v)], dst)
    if td["k"] == "str" or td["k"] in ("slice",):
        return eng.deref(st, v)
    if td["k"] in ("int", "uint"):
        return v
    return eng.app("into:" + td["s"], [eng.deepderef(st, v)], dst)


# ------------------------------------------------------------------ formatting
@model("fmt::new_display", "core::fmt::rt::Argument::new_display")
def new_display(eng, st, c, args, site, dty):
    return ("adt", "fmtarg", 0, (display(eng, st, args[0], c["targs"][-1] if c.get("targs") else None),))


@model("fmt::new_debug", "core::fmt::rt::Argument::new_debug")
def new_debug(eng, st, c, args, site, dty):
    return ("adt", "fmtarg", 0, (eng.app("debug", [eng.deepderef(st, args[0])]),))


@model("core::fmt::rt::Argument::from_usize", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex")
def new_other(eng, st, c, args, site, dty):
    return ("adt", "fmtarg", 0, (eng.app(c["name"].rsplit("::", 1)[-1], [eng.deepderef(st, args[0])]),))


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const")
def args_from_str(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    return v


@model("core::fmt::Arguments::new")
def args_new(eng, st, c, args, site, dty):
    tpl, arr = eng.deref(st, args[0]), eng.deref(st, args[1])
    if tpl[0] == "seq" and all(s[0] == "1" and s[1][0] == "c" for s in tpl[1]):
        tpl = ("bytes", tuple(s[1][2] for s in tpl[1]))
    if tpl[0] != "bytes" or arr[0] != "seq":
        return top("format template")
    b = tpl[1]
    items = [eng.deref(st, s[1]) for s in arr[1]]
    out, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(lit(bytes(b[i:i + x]).decode("utf8", "replace")))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(lit(bytes(b[i:i + n]).decode("utf8", "replace")))
            i += n
        elif x & 0xC0 == 0xC0:
            opts = x & 0x3F
            plain = True
            if opts & 1:
                fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16
                i += 4
                plain = fl == 0x20 | 1 << 23        # {:#}
            if opts & 2:
                i += 2
                plain = False
            if opts & 4:
                i += 2
                plain = False
            k = nxt
            if opts & 8:
                k = b[i] | b[i + 1] << 8
                i += 2
            nxt = k + 1
            if k >= len(items):
                return top("format template")
            v = items[k]
            v = v[3][0] if v[0] == "adt" and v[1] == "fmtarg" else top("format argument")
            if plain and opts & 1 and v[0] == "app" and v[1] == "debug":
                plain = False
            if not plain:
                v = eng.app("padded", [v]) if v[0] != "top" else v
            out.append(v)
        else:
            return top("format template")
    return cat(out)


def cat(vs):
    """concatenation; alternatives are distributed"""
    acc = [()]
    for v in vs:
        if v[0] == "top":
            return v
        alts = phi_alts(v)
        if len(alts) * len(acc) > PHI_MAX:
            return top("string alternatives")
        acc = [a + (x,) for a in acc for x in alts]
    return mkphi([concat(*a) for a in acc])


@model("alloc::fmt::format", "core::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(eng, st, c, args, site, dty):
    return eng.deref(st, args[0])


@model("core::fmt::Write::write_str", "core::fmt::Write::write_fmt", "core::fmt::Write::write_char")
def write_str(eng, st, c, args, site, dty):
    old = eng.deref(st, args[0])
    v = eng.deref(st, args[1])
    eng.store(st, args[0], cat([old, v]))
    return ok(UNIT)


# ------------------------------------------------------------------ panics
@model("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_display", "core::panicking::panic_str", "core::panicking::panic_str_2015",
       "core::panicking::unreachable_display", "core::panicking::panic_explicit", "std::rt::begin_panic", "core::panicking::panic_const::panic_const_add_overflow",
       "core::panicking::assert_failed", "core::panicking::panic_bounds_check", "std::process::exit", "std::process::abort", "core::option::expect_failed",
       "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::assert_failed_inner", "core::panicking::panic_nounwind",
       "core::hint::unreachable_unchecked", "core::panicking::unreachable")
def panic(eng, st, c, args, site, dty):
    msg = []
    for a in args:
        v = eng.deref(st, a)
        if v[0] == "str":
            msg.append(show(v))
    abort_event(eng, "all", (c["name"].rsplit("::", 1)[-1], " ".join(msg)[:160]))
    raise Diverge()


def from_input(v):
    """is v part of the (arbitrary) input, rather than computed?"""
    while v[0] == "proj":
        v = v[1]
    return v[0] == "sym"


def abort_alts(eng, st, v, bad_variant):
    """an Option or Result that is unwrapped: "sure" if one of the values it may have aborts, "maybe" if that is not known, None"""
    r = None
    for a in phi_alts(v):
        if a[0] == "adt":
            if a[2] == bad_variant:
                return "sure"
        elif is_term(a):
            d = eng.decide(st, a)
            if d is None:
                if from_input(a):
                    return "sure"
                r = "maybe"
            elif d == bad_variant:
                return "sure"
        else:
            r = "maybe"
    return r


def abort_event(eng, kind, detail):
    """kind: "all" (every value aborts), "sure" (some value does), "maybe" """
    if eng.expecting:
        return
    eng.event({"all": "panic", "sure": "abort", "maybe": "maypanic"}[kind], eng.stack[-1]["id"] if eng.stack else "?", detail)


# Option / Result: the cases that std bodies would split on
def opt_split(eng, st, v):
    """(maybe none, payload or None)"""
    v = eng.deref(st, v)
    none, pay = False, None
    for a in phi_alts(v):
        if a[0] == "adt":
            if a[2] == 0:
                none = True
            else:
                pay = join(pay, a[3][0])
        elif is_term(a):
            r = eng.decide(st, a)
            if r != 1:
                none = True
            if r != 0:
                pay = join(pay, eng.mkproj(a, ("f", 1, 0)))
        else:
            none = True
            pay = join(pay, top("payload"))
    return none, pay


@model("core::option::Option::unwrap", "core::option::Option::expect")
def opt_unwrap(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    none, pay = opt_split(eng, st, v)
    if none:
        abort_event(eng, "all" if pay is None else abort_alts(eng, st, v, 0) or "maybe", ("unwrap None", show(eng.deepderef(st, v))[:160]))
    if pay is None:
        raise Diverge()
    if is_term(v):
        st.facts[v] = 1
    return pay


@model("core::result::Result::unwrap", "core::result::Result::expect")
def res_unwrap(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    bad, pay = False, None
    for a in phi_alts(v):
        if a[0] == "adt":
            if a[2] == 1:
                bad = True
            else:
                pay = join(pay, a[3][0])
        elif is_term(a):
            r = eng.decide(st, a)
            if r != 0:
                bad = True
            if r != 1:
                pay = join(pay, eng.mkproj(a, ("f", 0, 0)))
        else:
            bad = True
            pay = join(pay, top("payload"))
    if bad:
        abort_event(eng, "all" if pay is None else abort_alts(eng, st, v, 1) or "maybe", ("unwrap Err", show(eng.deepderef(st, v))[:160]))
    if pay is None:
        raise Diverge()
    if is_term(v):
        st.facts[v] = 0
    return pay


# ------------------------------------------------------------------ comparison
@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def eq_(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    neg = c["name"].endswith("::ne")
    if a[0] in ("set", "map") or b[0] in ("set", "map"):
        r = TRUE if a == b else (FALSE if a[0] == b[0] and bool(a[2]) != bool(b[2]) and all(e[2] in "1+" for e in a[2] + b[2]) else top("collection equality"))
        return b_not(r) if neg else r
    if (a[0] == "c" and a[1] == "char") or a[0] == "char" or b[0] == "char":
        return char_cmp(eng, st, "Ne" if neg else "Eq", a, b)
    if (a[0] == "c" and a[1] in ("int", "bool")) or (b[0] == "c" and b[1] in ("int", "bool")):
        return binop(eng, st, "Ne" if neg else "Eq", a, b)
    if "top" in (a[0], b[0]):
        return top("equality")
    r = eng.eqv(st, a, b)
    if r[0] == "app" and "phi" in (a[0], b[0]):
        # one comparison for each of the values it may be
        alts = [eng.eqv(st, x, y) for x in phi_alts(a) for y in phi_alts(b)]
        alts = [b_not(x) if neg else x for x in alts]
        r = alts[0]
        for x in alts[1:]:
            r = join(r, x)
        if not all(x[0] == "c" or x[0] == "app" and "phi" not in [y[0] for y in x[2]] for x in alts):
            return top("equality")
        return r
    if r[0] == "app" and any(x[0] not in ("sym", "proj", "app", "str", "c", "adt", "tup", "seq") for x in r[2]):
        return top("equality")
    return b_not(r) if neg else r


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def ord_(eng, st, c, args, site, dty):
    return binop(eng, st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c["name"][-2:]], args[0], args[1])


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def cmp_(eng, st, c, args, site, dty):
    return eng.app("cmp", [eng.deepderef(st, a) for a in args], dty)


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def maxmin(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    r = int_cmp(eng, st, "lt", a, b)
    n = c["name"][-3:]
    if r is None:
        return top("max/min") if "top" in (a[0], b[0]) else join(a, b)
    return (b if r else a) if n == "max" else (a if r else b)


@model("core::ops::bit::BitOr::bitor", "core::ops::bit::BitAnd::bitand", "core::ops::bit::BitXor::bitxor")
def bitop(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    t = eng.p.types[eng.p.peel(c["targs"][0])]
    if is_coll(t, "HashSet", "BTreeSet"):
        return set_op(eng, st, {"bitor": "union", "bitand": "intersection", "bitxor": "symmetric_difference"}[c["name"].rsplit("::", 1)[-1]], a, b)
    return binop(eng, st, {"bitor": "BitOr", "bitand": "BitAnd", "bitxor": "BitXor"}[c["name"].rsplit("::", 1)[-1]], a, b)


@model("core::ops::bit::BitOrAssign::bitor_assign", "core::ops::bit::BitAndAssign::bitand_assign")
def bitassign(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    eng.store(st, args[0], binop(eng, st, "BitOr" if "or_assign" in c["name"] else "BitAnd", a, b))
    return UNIT


@model("core::ops::bit::Not::not")
def not_(eng, st, c, args, site, dty):
    return unop(eng, st, "Not", eng.deref(st, args[0]))


@model("core::ops::arith::Add::add", "core::ops::arith::AddAssign::add_assign", "core::ops::arith::Sub::sub", "core::ops::arith::SubAssign::sub_assign")
def add_(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    t = eng.p.types[eng.p.peel(c["targs"][0])]
    if t["k"] in ("int", "uint"):
        r = add(a, b) if "Add" in c["name"] else sub(a, b)
    else:
        r = cat([a, b])
    if c["name"].endswith("_assign"):
        eng.store(st, args[0], r)
        return UNIT
    return r


@model("bool::then", "bool::then_some", "core::bool::then", "core::bool::then_some")
def bool_then(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    r = eng.truth(st, v)
    if r is False:
        return NONE
    s2 = st.copy()
    if r is None:
        eng.assume(st, v, True)
    x = some(eng.call_value(st, args[1], [], site)) if c["name"].endswith("then") else some(args[1])
    if r is True:
        return x
    eng.assume(s2, v, False)
    return [(NONE, s2), (x, st)]


# ------------------------------------------------------------------ calling closures
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def fn_call(eng, st, c, args, site, dty):
    a = args[1]
    xs = list(a[1]) if a[0] == "tup" else [a]
    return eng.call_value(st, args[0], xs, site, dty)


# ------------------------------------------------------------------ iterators
@model("core::iter::traits::collect::IntoIterator::into_iter", "Vec::iter", "Vec::into_iter", "Map::iter", "Set::iter", "Map::into_iter",
       "core::option::Option::iter", "core::option::Option::into_iter", "core::result::Result::iter", "Vec::as_iter", "Set::into_iter")
def into_iter(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    v = args[0]
    if n == "iter":
        v = eng.deref(st, v)
    return eng.iter_of(st, v)


@model("Vec::iter_mut", "Map::iter_mut", "core::option::Option::iter_mut")
def iter_mut(eng, st, c, args, site, dty):
    return eng.iter_mut(st, args[0])


@model("Map::values_mut")
def values_mut(eng, st, c, args, site, dty):
    return eng.iter_mut(st, args[0], "values")


@model("Map::keys", "Map::into_keys")
def keys(eng, st, c, args, site, dty):
    return mk_iter(emit(eng, st, isegs(eng.iter_of(st, eng.deref(st, args[0]))), lambda s, e: (("1", eng.get(e, ("f", None, 0))),)))


@model("Map::values", "Map::into_values")
def values(eng, st, c, args, site, dty):
    return mk_iter(emit(eng, st, isegs(eng.iter_of(st, eng.deref(st, args[0]))), lambda s, e: (("1", eng.get(e, ("f", None, 1))),)))


@model("Map::drain", "Vec::drain", "Set::drain")
def drain(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if len(args) > 1:
        r = eng.deref(st, args[1])
        if not (r[0] == "adt" and r[1].endswith("RangeFull")):
            eng.store(st, args[0], top("drained"))
            return mk_iter((("*", ("drain",), top("drained element"), False),))
    eng.store(st, args[0], EMPTY if v[0] == "seq" or (is_term(v) and not is_coll(eng.ptype(v), "HashMap", "HashSet", "BTreeMap", "BTreeSet")) else (v[0], v[1], ()) if v[0] in ("map", "set") else top("drained"))
    return eng.iter_of(st, v)


@model("Iterator::next")
def it_next(eng, st, c, args, site, dty):
    if args[0][0] != "ref":
        return NotImplemented
    r = last_ref(eng, st, args[0])
    return eng.iter_next(st, r, site)


@model("Iterator::map")
def it_map(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    f = args[1]

    def one(s, e):
        pc = per_class(eng, s, f, e, site)
        if pc is not None:
            r = chars_mapped(e[1], [(cl, v) for cl, _, v in pc])
            if r is not None:
                return r
        return (("1", call1(eng, s, f, [e], site)),)
    fs = isegs(it)
    if any(x[0] in ("+", "*") and x[2][0] == "char" for x in flat(fs)):
        out = []
        for x in fs:
            if x[0] in ("+", "*") and x[2][0] == "char":
                r = map_char_seg(eng, st, f, x, site)
                if r is not None:
                    out.append(r)
                    continue
            out += emit(eng, st, (x,), one)
        return mk_iter(out)
    return mk_iter(emit(eng, st, fs, one))


def chars_mapped(seg, pc):
    rep = {}
    for cl, v in pc:
        if v[0] == "char" and v[1][1] == seg[1] and v[1][2] == frozenset([cl]):
            continue
        s = v[2] if v[0] == "c" and v[1] == "char" else None
        if s is None:
            return None
        rep[cl] = s
    r = absstr.map_seg_chars(seg, lambda cl: rep.get(cl))
    if r is None or len(r) != 1:
        return None
    return (("1", ("char", r[0]) if r[0][0] == "ch" else ("c", "char", r[0][1])),)


def map_char_seg(eng, st, f, x, site):
    e = x[2]
    cs = split_chars(e) or [(next(iter(e[1][2])), e)]
    pc = [(cl, call1(eng, st, f, [cv], site)) for cl, cv in cs]
    r = chars_mapped(e[1], pc)
    if r is None:
        return None
    return (x[0], x[1], r[0][1], x[3])


@model("Iterator::filter")
def it_filter(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])

    def one(s, e):
        cs = split_chars(e)
        if cs is not None:
            keep, unk = set(), False
            for cl, cv in cs:
                r = eng.truth(s, call1(eng, s, args[1], [cv], site))
                if r is None:
                    unk = True
                if r is not False:
                    keep.add(cl)
            if not unk:
                if len(keep) == len(cs):
                    return (("1", e),)
                if not keep:
                    return ()
                return (("?", ("char", ("ch", ("filt", e[1][1], frozenset(keep)), frozenset(keep), "1"))),)
        p = call1(eng, s, args[1], [e], site)
        r = eng.truth(s, p)
        if r is True:
            return (("1", e),)
        if r is False:
            return ()
        return (("?", e),)
    return mk_iter(emit(eng, st, isegs(it), one))


@model("Iterator::filter_map", "Iterator::flat_map", "Iterator::flatten")
def it_filter_map(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])

    def one(s, e):
        v = call1(eng, s, args[1], [e], site) if len(args) > 1 else e
        return opened(eng, s, v)
    return mk_iter(emit(eng, st, isegs(it), one))


def opened(eng, st, v):
    """elements of an Option / Result / collection / iterator"""
    vv = eng.deref(st, v)
    if vv[0] == "phi":
        if all(a[0] == "adt" and a[1] in (OPT, RES) for a in vv[1]):
            pay, none = None, False
            for a in vv[1]:
                if a[1] == OPT and a[2] == 1 or a[1] == RES and a[2] == 0:
                    pay = join(pay, a[3][0])
                else:
                    none = True
            return (("?" if none else "1", pay),) if pay is not None else ()
        r = None
        for a in sorted(vv[1], key=repr):
            r = merge_opt(r, opened(eng, st, a))
        return r
    if is_term(vv):
        bt = eng.ptype(vv)
        if is_coll(bt, "Result"):
            r = eng.decide(st, vv)
            p = eng.mkproj(vv, ("f", 0, 0))
            return () if r == 1 else (("1" if r == 0 else "?", p),)
    it = eng.iter_of(st, v)
    if it[0] != "iter":
        return (("*", ("opened",), top("elements"), False),)
    return tuple(isegs(it))


@model("Iterator::inspect", "Iterator::for_each")
def it_inspect(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])

    def body(s, e, m):
        call1(eng, s, args[1], [e], site)
    eng.each(st, it, body)
    return UNIT if c["name"].endswith("for_each") else it


@model("Iterator::try_for_each", "Iterator::try_fold")
def it_try(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    fold = c["name"].endswith("try_fold")
    cell, errc = tmp(eng), tmp(eng)
    st.cells[cell] = args[1] if fold else UNIT
    st.cells[errc] = EMPTY
    f = args[2] if fold else args[1]

    def body(s, e, m):
        a = [s.cells[cell], e] if fold else [e]
        v = eng.deref(s, call1(eng, s, f, a, site))
        okv, bad = None, None
        for x in phi_alts(v):
            var = eng.variant(s, x) if (x[0] == "adt" or is_term(x)) else None
            isopt = x[0] == "adt" and x[1] == OPT
            good = 1 if isopt else 0
            if var is None or var == good:
                okv = join(okv, eng.get(x, ("f", good, 0)))
            if var is None or var != good:
                bad = join(bad, x if x[0] == "adt" else err(eng.get(x, ("f", 1, 0))))
        if bad is not None:
            old = s.cells[errc]
            s.cells[errc] = ("seq", (("?" if okv is not None else "1", bad),)) if old == EMPTY else ("seq", (("?", join(seg_val(old[1][0]), bad)),)) if old[0] == "seq" and old[1] else old
        if okv is not None:
            s.cells[cell] = okv
    eng.each(st, it, body)
    bad = st.cells.pop(errc)
    v = st.cells.pop(cell)
    opt = is_coll(eng.p.types[dty], "Option")
    good = some(v) if opt else ok(v)
    if bad == EMPTY:
        return good
    bv = seg_val(bad[1][0]) if bad[0] == "seq" else top("error")
    if bad[0] == "seq" and bad[1][0][0] in ("1", "+"):
        return bv
    return [(good, st.copy()), (bv, st)]


@model("Iterator::fold", "Iterator::rfold")
def it_fold(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    cell = tmp(eng)
    st.cells[cell] = args[1]

    def body(s, e, m):
        acc = s.cells[cell]
        s.cells[cell] = call1(eng, s, args[2], [acc, e], site)
    eng.each(st, it, body)
    return st.cells.pop(cell)


@model("Iterator::reduce")
def it_reduce(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    cell = tmp(eng)
    st.cells[cell] = NONE

    def body(s, e, m):
        acc = s.cells[cell]
        if acc == NONE:
            s.cells[cell] = some(e)
        elif acc[0] == "adt":
            s.cells[cell] = some(call1(eng, s, args[1], [acc[3][0], e], site))
        else:
            none, pay = opt_split(eng, s, acc)
            v = call1(eng, s, args[1], [pay, e], site)
            s.cells[cell] = some(join(v, e))
    eng.each(st, it, body)
    return st.cells.pop(cell)


def quantify(eng, st, segs, pred, site, want):
    """existential: is there an element with pred == want; returns a boolean value"""
    terms = []
    unknown = False
    cell = tmp(eng)
    for s in flat(segs):
        e = seg_val(s)
        if s[0] == "1":
            cs = split_elem(e)
            p = call1(eng, st, pred, [e], site) if cs is None else None
            for _, cv in cs or ():
                p = join(p, call1(eng, st, pred, [cv], site))
            if cs is not None and eng.truth(st, p) is None:
                absstr.note(e if e[0] == "char" else next(x for x in e[1] if x[0] == "char"))
        else:
            st.cells[cell] = EMPTY
            s2 = st.copy()

            def body(s3, el, m):
                cs = split_elem(el)
                if cs is not None:
                    r = None
                    for _, cv in cs:
                        r = join(r, call1(eng, s3, pred, [cv], site))
                    s3.cells[cell] = r
                else:
                    s3.cells[cell] = call1(eng, s3, pred, [el], site)
            try:
                eng.generic(s2, ("+",) + s[1:] if s[0] in "+*" else ("+", ("opt", e), e, True), body)
            except Diverge:
                if s[0] == "+":
                    raise
                continue
            p = s2.cells.get(cell, top("predicate"))
            st.assign(_join_state(st, s2) if s[0] != "+" else s2)
            st.cells.pop(cell, None)
        r = eng.truth(st, p)
        if r is not None and r != want:
            continue
        if r is not None and s[0] in ("1", "+"):
            return TRUE, terms
        if r is not None:
            if s[0] == "*" and is_term_key(s[1]):
                terms.append(("app", "nonempty", (s[1],)))
            else:
                unknown = True
        elif s[0] == "1" and is_term(p):
            terms.append(p if want else b_not(p))
        elif is_term(p) and s[0] in ("+", "*") and is_term_key(s[1]):
            terms.append(("app", "exists", (s[1], p if want else b_not(p))))
        else:
            unknown = True
    if unknown:
        return top("quantifier"), terms
    v = FALSE
    for t in terms:
        v = b_or(eng, st, v, t)
    return v, terms


def is_term_key(src):
    return isinstance(src, tuple) and bool(src) and src[0] in TERM


@model("Iterator::any")
def it_any(eng, st, c, args, site, dty):
    return quantify(eng, st, isegs(the_iter(eng, st, args[0])), args[1], site, True)[0]


@model("Iterator::all")
def it_all(eng, st, c, args, site, dty):
    v = quantify(eng, st, isegs(the_iter(eng, st, args[0])), args[1], site, False)[0]
    return b_not(v)


@model("Iterator::find", "Iterator::find_map", "Iterator::position", "Iterator::rposition", "Iterator::rfind")
def it_find(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    n = c["name"].rsplit("::", 1)[-1]
    pos, exact = 0, True
    alts = []
    for s in flat(isegs(it)):
        e = seg_val(s)
        p = call1(eng, st, args[1], [e], site)
        if n == "find_map":
            none, pay = opt_split(eng, st, p)
            r = True if not none else (False if pay is None else None)
            hit = some(pay) if pay is not None else None
        else:
            r = eng.truth(st, p)
            hit = some(e) if n == "find" else (some(cint(pos)) if exact and s[0] == "1" else some(("ix", s[1]) if s[0] in "+*" else top("position")))
        if s[0] != "1":
            exact = False
        pos += 1
        if r is False:
            continue
        alts.append(hit)
        if r is True and s[0] in ("1", "+"):
            break
    else:
        alts.append(NONE)
    return mkphi(alts)


@model("Iterator::count")
def it_count(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    segs = isegs(it)
    if segs and all(s[0] in ("+", "*") and s[1] and isinstance(s[1], tuple) and s[1][0] == "chars" for s in segs) and len(segs) == 1:
        return ("app", "str.count", (segs[0][1][1],))
    fs = flat(segs)
    if all(s[0] == "1" for s in fs):
        return cint(len(fs))
    return seg_len(segs)


@model("ExactSizeIterator::len", "Iterator::len")
def it_len(eng, st, c, args, site, dty):
    it = eng.iter_of(st, eng.deref(st, args[0]))
    fs = flat(isegs(it))
    return cint(len(fs)) if all(s[0] == "1" for s in fs) else seg_len(isegs(it))


@model("Iterator::size_hint")
def it_hint(eng, st, c, args, site, dty):
    return ("tup", (top("hint"), top("hint")))


@model("Iterator::enumerate")
def it_enumerate(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    out = []
    n, exact = 0, True
    segs = isegs(it)
    lo = 0
    for k, s in enumerate(segs):
        # at least this many come before; which position it is has no other name
        later = add(("ix", ("after", k, s[1] if s[0] in "+*" else None)), cint(lo)) if s[0] != "bag" and seg_val(s)[0] in ("char", "c") else top("position")
        lo += s[0] in ("1", "+")
        if s[0] == "bag":
            fs = flat([s])
            if len(fs) == 1 and fs[0][0] == "1":
                s = fs[0]
            else:
                out.append(("bag", tuple(map_seg(x, lambda v: ("tup", (top("position in hash order") if s[2] == "hash" else ("ix", x[1]) if x[0] in "+*" else top("position"), v))) for x in fs), s[2]))
                exact = False
                continue
        if s[0] == "1":
            out.append(("1", ("tup", (cint(n) if exact else add(exact_off, cint(n)) if exact_off else later, s[1]))))
            n += 1
        elif s[0] == "?":
            out.append(("?", ("tup", (cint(n) if exact else top("position"), s[1]))))
            exact = False
            exact_off = None
        else:
            ix = ("ix", s[1])
            if exact and n:
                ix = add(ix, cint(n))
            elif not exact:
                ix = add(add(ix, exact_off), cint(n)) if exact_off else later
            out.append((s[0], s[1], ("tup", (ix, s[2])), s[3]))
            if s[3] is True and is_term_key(s[1]):
                ln = ("app", "len", (s[1],))
                exact_off = ln if exact else (add(exact_off, ln) if exact_off else None)
            else:
                exact_off = None
            if exact:
                pass
            exact = False
    return mk_iter(out)


@model("Iterator::zip", "core::iter::adapters::zip::zip")
def it_zip(eng, st, c, args, site, dty):
    a, b = isegs(the_iter(eng, st, args[0])), isegs(the_iter(eng, st, args[1]))
    out = []
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if x[0] == "1" and y[0] == "1":
            out.append(("1", ("tup", (x[1], y[1]))))
            a.pop(0)
            b.pop(0)
        elif x[0] in ("+", "*") and y[0] in ("+", "*") and x[1] == y[1] and x[3] is True and y[3] is True:
            out.append((x[0], x[1], ("tup", (x[2], y[2])), True))
            a.pop(0)
            b.pop(0)
        elif y[0] in ("+", "*") and isinstance(y[1], tuple) and y[1] and y[1][0] == "from":
            # counting along
            r = it_enumerate(eng, st, c, [mk_iter(a)], site, dty)
            st0 = y[1][1]
            out += emit(eng, st, isegs(r), lambda s, e: (("1", ("tup", (e[1][1], add(e[1][0], st0)))),))
            return mk_iter(out)
        elif x[0] in ("+", "*") and isinstance(x[1], tuple) and x[1] and x[1][0] == "from":
            r = it_enumerate(eng, st, c, [mk_iter(b)], site, dty)
            st0 = x[1][1]
            out += emit(eng, st, isegs(r), lambda s, e: (("1", ("tup", (add(e[1][0], st0), e[1][1]))),))
            return mk_iter(out)
        elif x[0] == "bag" and y[0] == "bag" and len(x[1]) == len(y[1]) and x[2] == y[2]:
            a[0:1] = list(x[1])
            b[0:1] = list(y[1])
        else:
            out.append(("*", ("zip",), ("tup", (any_elem(a), any_elem(b))), False))
            break
    return mk_iter(out)


@model("Iterator::chain")
def it_chain(eng, st, c, args, site, dty):
    return mk_iter(isegs(the_iter(eng, st, args[0])) + isegs(the_iter(eng, st, args[1])))


@model("Iterator::rev")
def it_rev(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    out = []
    for s in reversed(isegs(it)):
        if s[0] in ("+", "*"):
            src = s[1][1] if isinstance(s[1], tuple) and s[1] and s[1][0] == "rev" else ("rev", s[1])
            out.append((s[0], src, s[2], s[3]))
        else:
            out.append(s)
    return mk_iter(out)


@model("Iterator::skip")
def it_skip(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    n = eng.deref(st, args[1])
    return mk_iter(skip_segs(eng, st, isegs(it), n))


def skip_segs(eng, st, segs, n):
    if n[0] == "c":
        segs = list(segs)
        k = n[2]
        while k and segs and segs[0][0] == "1":
            segs.pop(0)
            k -= 1
        if k and segs:
            return (("*", ("skip", n, tuple(segs)), any_elem(segs), False),)
        return tuple(segs)
    h = getattr(eng.sc, "skip", None)
    r = h(eng, st, segs, n) if h else None
    if r is not None:
        return r
    # compare position by position
    out = []
    pos, sure = 0, True
    for i, s in enumerate(segs):
        if s[0] == "1" and sure:
            r = int_cmp(eng, st, "lt", cint(pos), n)
            pos += 1
            if r is True:
                continue
            if r is False:
                return tuple(segs[i:])
            out.append(("?", s[1]))
            continue
        sure = False
        if s[0] in ("+", "*"):
            out.append(("*", ("skip", s[1], n), s[2], False))
        elif s[0] == "bag":
            out.append(("bag", tuple(weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in s[1]])), s[2]))
        else:
            out.append(("?", s[1]))
    return tuple(out)


@model("Iterator::take")
def it_take(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    n = eng.deref(st, args[1])
    segs = isegs(it)
    if len(segs) == 1 and segs[0][0] in "+*" and isinstance(segs[0][1], tuple) and segs[0][1][0] == "chars":
        return mk_iter(((segs[0][0], ("chars", ("app", "str.take", (segs[0][1][1], n)), "t"), segs[0][2], True),))
    return mk_iter(take_segs(eng, st, segs, n))


def take_segs(eng, st, segs, n):
    h = getattr(eng.sc, "take", None)
    r = h(eng, st, segs, n) if h else None
    if r is not None:
        return r
    out = []
    pos = 0
    sure = True
    for s in segs:
        if s[0] == "1" and sure:
            r = int_cmp(eng, st, "lt", cint(pos), n)
            pos += 1
            if r is True:
                out.append(s)
            elif r is False:
                return tuple(out)
            else:
                out.append(("?", s[1]))
            continue
        if sure and pos == 0 and s[0] in "+*" and isinstance(s[1], tuple) and s[1] and s[1][0] == "from" and repr(s[1]) not in repr(s[2]):
            # the same value over and over
            return tuple(map_seg(x, lambda v: s[2]) for x in isegs(range_iter(eng, st, ("range", cint(0), n))))
        sure = False
        if s[0] in ("+", "*"):
            out.append(("*", ("take", s[1], n), s[2], False))
        elif s[0] == "bag":
            out.append(("bag", tuple(weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in s[1]])), s[2]))
        else:
            out.append(("?", s[1]))
    return tuple(out)


@model("Iterator::take_while", "Iterator::skip_while", "Iterator::map_while", "Iterator::step_by")
def it_while(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    n = c["name"].rsplit("::", 1)[-1]
    segs = isegs(it)
    if n == "step_by":
        return mk_iter((("*", ("step",), any_elem(segs) if segs else top("none"), False),)) if segs else mk_iter(())
    out = []
    skipping = n == "skip_while"
    maybe = False
    for s in flat(segs):
        e = seg_val(s)
        if n == "skip_while" and not skipping:
            out.append(s)
            continue
        p = call1(eng, st, args[1], [e], site)
        if n == "map_while":
            none, pay = opt_split(eng, st, p)
            r = True if not none else (False if pay is None else None)
            s = (s[0], pay) if s[0] in "1?" else (s[0], s[1], pay, s[3])
        else:
            r = eng.truth(st, p)
        if n == "skip_while":
            if r is True:
                continue
            if r is False:
                skipping = False
                out.append(s)
            else:
                out += weaken([s])
        else:
            if r is False:
                break
            if r is None:
                maybe = True
            out += weaken([(s[0], s[1], s[2], False) if s[0] in "+*" else s]) if maybe else [s]
    return mk_iter(out)


@model("Iterator::last", "Iterator::nth", "Iterator::next_back", "Iterator::peek", "Peekable::peek")
def it_last(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    it = eng.iter_of(st, eng.deref(st, args[0]))
    segs = isegs(it)
    if n == "nth":
        k = eng.deref(st, args[1])
        if k[0] == "c" and len(segs) == 1 and segs[0][0] in "+*" and isinstance(segs[0][1], tuple) and segs[0][1][0] in ("chars", "char_indices") and it[2] == 0 and not it[3]:
            # the character at a position of a text: there if the text is long enough
            x = segs[0][1][1]
            longer = ("app", "lt", (k, ("app", "str.count", (x,))))
            r = eng.truth(st, longer)
            ch = ("proj", x, ("elem",))
            hit = some(("tup", (("app", "byteat", (x, k)), ch)) if segs[0][1][0] == "char_indices" else ch)
            if args[0][0] == "ref":
                eng.store(st, args[0], mk_iter(weaken([(s[0], s[1], s[2], False) for s in segs])))
            if r is not None:
                return hit if r else NONE
            out = []
            for v, val in ((NONE, False), (hit, True)):
                s2 = st.copy()
                eng.assume(s2, longer, val)
                out.append((v, s2))
            return out
        if k[0] == "c" and len(segs) > k[2] and all(s[0] == "1" for s in segs[:k[2] + 1]):
            if args[0][0] == "ref":
                eng.store(st, args[0], mk_iter(segs[k[2] + 1:]))
            return some(segs[k[2]][1])
        if k[0] == "c" and len(segs) <= k[2] and all(s[0] == "1" for s in segs):
            if args[0][0] == "ref":
                eng.store(st, args[0], mk_iter(()))
            return NONE
    elif n == "peek":
        if not segs:
            return NONE
        if segs[0][0] in ("1", "+"):
            return some(seg_val(segs[0])) if segs[0][0] == "1" else top("peeked")
    else:
        if not segs:
            return NONE
        if segs[-1][0] == "1":
            if n == "next_back" and args[0][0] == "ref":
                eng.store(st, args[0], mk_iter(segs[:-1]))
            return some(segs[-1][1])
    if n in ("nth", "next_back", "peek") and args[0][0] == "ref":
        eng.store(st, args[0], mk_iter(weaken([(s[0], s[1], s[2], False) if s[0] in "+*" else s for s in flat(segs)])))
    if not flat(segs):
        return NONE
    return mkphi([NONE, some(any_elem(segs))])


@model("Iterator::partition")
def it_partition(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    parts = []
    for want in (True, False):
        def one(s, e, want=want):
            r = eng.truth(s, call1(eng, s, args[1], [e], site))
            if r is None:
                return (("?", e),)
            return (("1", e),) if r == want else ()
        parts.append(emit(eng, st, isegs(it), one))
    ti = eng.p.types[dty]["args"][0]
    return ("tup", tuple(collect_into(eng, st, p, ti) for p in parts))


@model("Iterator::unzip")
def it_unzip(eng, st, c, args, site, dty):
    it = the_iter(eng, st, args[0])
    ts = eng.p.types[dty]["args"]
    return ("tup", tuple(collect_into(eng, st, emit(eng, st, isegs(it), lambda s, e, i=i: (("1", eng.get(e, ("f", None, i))),)), ts[i]) for i in (0, 1)))


@model("Iterator::max", "Iterator::min", "Iterator::sum", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::product")
def it_max(eng, st, c, args, site, dty):
    segs = isegs(the_iter(eng, st, args[0]))
    if not segs:
        return NONE if c["name"][-3:] != "sum" else cint(0)
    return top(c["name"].rsplit("::", 1)[-1])


@model("Iterator::eq", "Iterator::ne", "Iterator::cmp")
def it_eq(eng, st, c, args, site, dty):
    return top("iterator comparison")


@model("core::iter::sources::once::once")
def once(eng, st, c, args, site, dty):
    return mk_iter((("1", args[0]),))


@model("core::iter::sources::empty::empty")
def it_empty(eng, st, c, args, site, dty):
    return mk_iter(())


@model("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_n::repeat_n", "core::iter::sources::repeat_with::repeat_with")
def it_repeat(eng, st, c, args, site, dty):
    if c["name"].endswith("repeat_n"):
        n = eng.deref(st, args[1])
        r = isegs(range_iter(eng, st, ("range", cint(0), n)))
        return mk_iter(map_seg(s, lambda v: args[0]) for s in r)
    v = args[0] if not c["name"].endswith("repeat_with") else call1(eng, st, args[0], [], site)
    return mk_iter((("+", ("from", cint(0)), v, True),))


@model("Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def it_collect(eng, st, c, args, site, dty):
    return collect_into(eng, st, isegs(the_iter(eng, st, args[0])), dty)


def collect_into(eng, st, segs, ti):
    t = eng.p.types[eng.p.peel(ti)]
    if t["k"] in ("slice",):
        return ("seq", tuple(segs))
    if t["k"] == "tuple" and not t["args"]:
        return UNIT
    if t["k"] != "adt":
        return top("collect into " + t["s"])
    n = t["path"].rsplit("::", 1)[-1]
    if n in ("Vec", "VecDeque"):
        return ("seq", tuple(segs))
    if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "Map"):
        m = empty_coll(n if n != "Map" else "BTreeMap")
        for s in flat(segs):
            e = seg_val(s)
            if "Set" in n:
                k, v = e, UNIT
            else:
                k, v = eng.get(e, ("f", None, 0)), eng.get(e, ("f", None, 1))
            k = eng.deref(st, k)
            m = map_put(eng, st, m, k, v, s[0], s[1] if s[0] in "+*" else None)
        return m
    if n == "String":
        return chars_to_string(eng, st, segs)
    if n in ("Result", "Option"):
        good = 0 if n == "Result" else 1
        inner = t["args"][0]
        out = []
        outs = []
        for s in segs if not any(x[0] == "bag" for x in segs) else segs:
            sub_segs = s[1] if s[0] == "bag" else (s,)
            acc = []
            for x in sub_segs:
                e = eng.deref(st, seg_val(x))
                okv, bad, sure_bad = None, None, True
                for a in phi_alts(e):
                    var = eng.variant(st, a) if (a[0] == "adt" or is_term(a)) else None
                    if var is None or var == good:
                        sure_bad = False
                        okv = join(okv, eng.get(a, ("f", good, 0)))
                    if var is None or var != good:
                        b = NONE if n == "Option" else err(eng.get(a, ("f", 1, 0)))
                        bad = join(bad, b)
                if bad is not None:
                    outs.append((bad, st.copy()))
                    if sure_bad and x[0] in ("1", "+"):
                        return outs
                if okv is not None:
                    acc.append((x[0], okv) if x[0] in "1?" else (x[0], x[1], okv, x[3]))
            if s[0] == "bag":
                out.append(("bag", tuple(acc), s[2]))
            else:
                out += acc
        v = collect_into(eng, st, tuple(out), inner)
        res = ok(v) if n == "Result" else some(v)
        return outs + [(res, st)] if outs else res
    if n == "Box" or n == "Cow":
        return collect_into(eng, st, segs, t["args"][0])
    return top("collect into " + t["s"])


def chars_to_string(eng, st, segs):
    out = []
    for s in segs:
        if s[0] == "bag":
            return top("string in hash order") if s[2] == "hash" and len(flat([s])) > 1 else top("string")
        v = eng.deref(st, seg_val(s))
        if s[0] == "1":
            out.append(v)
        elif isinstance(s[1], tuple) and s[1] and s[1][0] == "chars":
            S = s[1][1]
            if v[0] == "char":
                out.append(("str", (v[1][:3] + (s[0],),)))
            elif v == ("proj", S, ("elem",)) or (len(s[1]) > 2 and s[1][2] == "t"):
                out.append(S)
            else:
                out.append(eng.app("mapchars", [S, v]))
        else:
            out.append(eng.app("repeated", [v]))
    return cat(out)


# ------------------------------------------------------------------ Vec / slice
@model("Vec::new", "Vec::with_capacity", "Vec::default")
def vec_new(eng, st, c, args, site, dty):
    return EMPTY


def seq_of(eng, st, v):
    s = eng.as_seq(eng.deref(st, v))
    return s


@model("Vec::push", "Vec::push_back")
def vec_push(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    eng.store(st, args[0], ("seq", s[1] + (("1", args[1]),)) if s is not None else top("push"))
    return UNIT


@model("Vec::push_front")
def vec_push_front(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    eng.store(st, args[0], ("seq", (("1", args[1]),) + s[1]) if s is not None else top("push"))
    return UNIT


@model("Vec::insert")
def vec_insert(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    i = eng.deref(st, args[1])
    if s is not None and i[0] == "c" and all(x[0] == "1" for x in s[1][:i[2]]) and i[2] <= len(s[1]):
        eng.store(st, args[0], ("seq", s[1][:i[2]] + (("1", args[2]),) + s[1][i[2]:]))
    else:
        eng.store(st, args[0], top("insert"))
    return UNIT


@model("core::iter::traits::collect::Extend::extend", "Vec::extend_from_slice", "Vec::append", "Map::extend", "Set::extend", "Map::append")
def extend(eng, st, c, args, site, dty):
    tgt = eng.deref(st, args[0])
    app_ = c["name"].endswith("append")
    it = eng.iter_of(st, eng.deref(st, args[1])) if app_ else the_iter(eng, st, args[1])
    if app_:
        o = eng.deref(st, args[1])
        eng.store(st, args[1], EMPTY if o[0] == "seq" or is_term(o) and not is_coll(eng.ptype(o), "HashMap", "BTreeMap") else (o[0], o[1], ()) if o[0] in ("map", "set") else top("append"))
    segs = isegs(it)
    bt = eng.ptype(tgt) if is_term(tgt) else None
    if tgt[0] in ("map", "set") or is_coll(bt, "HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        m = eng.as_map(tgt)
        for s in flat(segs):
            e = seg_val(s)
            k, v = (e, UNIT) if m[0] == "set" else (eng.get(e, ("f", None, 0)), eng.get(e, ("f", None, 1)))
            m = map_put(eng, st, m, eng.deref(st, k), v, s[0], s[1] if s[0] in "+*" else None)
        eng.store(st, args[0], m)
        return UNIT
    t0 = eng.p.types[eng.p.peel(c["targs"][0])] if c.get("targs") else None
    if tgt[0] == "str" or is_coll(t0, "String") or is_coll(bt, "String"):
        eng.store(st, args[0], cat([tgt, chars_to_string(eng, st, segs)]))
        return UNIT
    s = eng.as_seq(tgt)
    eng.store(st, args[0], ("seq", s[1] + tuple(segs)) if s is not None else top("extend"))
    return UNIT


@model("Vec::len", "Map::len", "Set::len")
def coll_len(eng, st, c, args, site, dty):
    return seq_len(eng, st, args[0])


@model("Vec::is_empty", "Map::is_empty", "Set::is_empty")
def coll_empty(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if v[0] == "phi":
        rs = [coll_empty(eng, st, c, [x], site, dty) for x in v[1]]
        return mkphi(rs)
    if v[0] in ("map", "set"):
        ms = [e[2] for e in v[2]]
        srcs = [e[3] for e in v[2]]
    else:
        if is_term(v) and is_coll(eng.ptype(v), "HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            return simp(eng, st, ("app", "is_empty", (v,)))
        s = eng.as_seq(v)
        if s is None:
            return top("is_empty")
        fs = flat(s[1])
        ms = [x[0] for x in fs]
        srcs = [x[1] if x[0] in "+*" else None for x in fs]
    if any(m in ("1", "+") for m in ms):
        return FALSE
    if not ms:
        return TRUE
    if len(ms) == 1 and ms[0] == "*" and is_term_key(srcs[0]):
        return simp(eng, st, ("app", "is_empty", (srcs[0],)))
    return simp(eng, st, ("app", "is_empty", (eng.deepderef(st, v),)))


def simp(eng, st, t):
    r = eng.truth(st, t)
    return t if r is None else cbool(r)


@model("Vec::first", "Vec::last", "Vec::front", "Vec::back", "Vec::first_mut", "Vec::last_mut", "Vec::pop", "Vec::pop_front", "Vec::pop_back")
def vec_first(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    s = seq_of(eng, st, args[0])
    if s is None:
        if n.startswith("pop"):
            eng.store(st, args[0], top(n))
        return top(n)
    segs = s[1]
    end = 0 if n in ("first", "front", "first_mut", "pop_front") else -1
    mut = n.endswith("_mut")
    if not segs:
        return NONE
    x = segs[end]
    i = 0 if end == 0 else len(segs) - 1
    if n.startswith("pop"):
        if x[0] == "1":
            eng.store(st, args[0], ("seq", segs[1:] if end == 0 else segs[:-1]))
            return some(x[1])
        eng.store(st, args[0], ("seq", weaken([(y[0], y[1], y[2], False) if y[0] in "+*" else y for y in segs])))
        return some(any_elem(segs)) if x[0] == "+" else mkphi([NONE, some(any_elem(segs))])
    if mut:
        r = last_ref(eng, st, args[0])
        if r[0] == "ref" and x[0] == "1":
            eng.store(st, r, s)
            return some(("ref", r[1], r[2] + (("seg", i),)))
        return top(n)
    if x[0] == "1":
        return some(x[1])
    if x[0] == "+":
        return some(x[2])
    if any(y[0] in ("1", "+") for y in segs):
        return some(any_elem(segs))
    return mkphi([NONE, some(any_elem(segs))])


@model("Vec::get", "Vec::get_mut")
def vec_get(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    i = eng.deref(st, args[1])
    if s is None:
        return top("get")
    k = find_index(eng, st, s, i)
    if k is not None and s[1][k][0] in ("1", "+", "*"):
        if c["name"].endswith("_mut"):
            r = last_ref(eng, st, args[0])
            eng.store(st, r, s)
            return some(("ref", r[1], r[2] + (("seg", k),)))
        return some(seg_val(s[1][k]))
    if i[0] == "c" and all(x[0] == "1" for x in s[1]):
        return NONE
    if i[0] == "range":
        return top("slice")
    return mkphi([NONE, some(any_elem(s[1]))]) if s[1] else NONE


def short_seq(segs, ix):
    """may the sequence end before the constant position ix?"""
    if ix[0] != "c" or ix[1] != "int" or any(x[0] not in ("1", "?", "+", "*") for x in segs):
        return False
    return sum(x[0] in ("1", "+") for x in segs) <= ix[2]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "Vec::get_unchecked")
def index(eng, st, c, args, site, dty):
    base = eng.deref(st, args[0])
    ix = eng.deref(st, args[1])
    mut = c["name"].endswith("index_mut")
    bt = eng.p.types[eng.p.peel(c["targs"][0])]
    if is_coll(bt, "HashMap", "BTreeMap"):
        v = map_get(eng, st, base, ix)
        none, pay = opt_split(eng, st, v)
        if none:
            abort_event(eng, "all" if pay is None else abort_alts(eng, st, v, 0) or "maybe", ("missing key", show(ix)[:80]))
        if pay is None:
            raise Diverge()
        return pay
    if bt["k"] == "adt" and bt["path"].startswith("serde_json"):
        def one(b):
            r = jget(eng, st, b, ix)
            if r is None:
                return eng.app("value.index", [eng.deepderef(st, b), ix], dty)
            return pmap(r, lambda o: o[3][0] if o[2] == 1 else ("adt", JVALUE, jvar(eng, "Null"), ()))
        return pmap(eng.deepderef(st, base), one)
    if ix[0] in ("range",) or (ix[0] == "adt" and "range" in ix[1]):
        if bt["k"] == "str" or is_coll(bt, "String"):
            return str_slice(eng, st, base, ix)
        if ix[0] == "adt" and ix[1].endswith("RangeFull"):
            return base
        s = eng.as_seq(base)
        if s is not None and ix[0] == "range":
            lo = eng.deref(st, ix[1]) if len(ix) > 1 else cint(0)
            if len(ix) == 2:
                return ("seq", skip_segs(eng, st, s[1], lo))
            if len(ix) >= 3 and lo == cint(0):
                return ("seq", take_segs(eng, st, s[1], eng.deref(st, ix[2])))
        return top("slice")
    s = eng.as_seq(base)
    if s is None:
        return top("index")
    key_known(eng, ix)
    k = find_index(eng, st, s, ix)
    if k is not None:
        if mut:
            r = last_ref(eng, st, args[0])
            eng.store(st, r, s)
            return ("ref", r[1], r[2] + (("seg", k),))
        return seg_val(s[1][k])
    if ix[0] == "c" and all(x[0] == "1" for x in s[1]):
        abort_event(eng, "all", ("index out of bounds", str(ix[2])))
        raise Diverge()
    if ix == cint(0) and s[1] and s[1][0][0] == "+":
        return s[1][0][2]
    abort_event(eng, "sure" if short_seq(s[1], ix) else "maybe", ("index", show(ix)[:80]))
    return any_elem(s[1]) if s[1] else top("index")


@model("Vec::sort", "Vec::sort_unstable", "Vec::sort_by_key", "Vec::sort_unstable_by_key", "Vec::sort_by", "Vec::sort_unstable_by", "Vec::sort_by_cached_key")
def vec_sort(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    if s is None:
        eng.store(st, args[0], top("sort"))
        return UNIT
    fs = flat(s[1])
    n = c["name"].rsplit("::", 1)[-1]
    keys = []
    for x in fs:
        e = seg_val(x)
        if n.endswith("by_key") or n.endswith("cached_key"):
            keys.append(eng.deref(st, call1(eng, st, args[1], [e], site)))
        elif n.endswith("_by"):
            keys.append(by_key_of(eng, st, args[1], e, site, [seg_val(y) for y in fs if seg_val(y) != e]))
        else:
            keys.append(e)
    keys = [eng.deepderef(st, x) for x in keys]
    while keys and all(x[0] == "adt" and x[1] == OPT and x[2] == 1 for x in keys):
        keys = [x[3][0] for x in keys]
    if len(fs) == 1 and fs[0][0] in "1?" or not fs:
        eng.store(st, args[0], ("seq", tuple(fs)))
    elif all(x[0] == "1" for x in fs) and all(lit_text(eng.deepderef(st, k)) is not None for k in keys):
        ks = [lit_text(eng.deepderef(st, k)).encode() for k in keys]
        eng.store(st, args[0], ("seq", tuple(fs[i] for i in sorted(range(len(fs)), key=lambda i: ks[i]))))
    else:
        eng.store(st, args[0], ("seq", (("bag", tuple(fs), ("sorted", tuple(eng.deepderef(st, k) for k in keys))),)))
    return UNIT


def lit_text(v):
    """the text of a string known entirely, or None"""
    if v[0] == "str" and all(s[0] == "lit" for s in v[1]):
        return "".join(s[1] for s in v[1])
    return None


def by_key_of(eng, st, f, e, site, others=()):
    """the key a comparator compares: from comparing an element with itself, and with another one for the direction"""
    s2 = st.copy()
    r = call1(eng, s2, f, [e, e], site)
    if r[0] == "app" and r[1] == "cmp" and r[2][0] == r[2][1]:
        k = eng.deepderef(s2, r[2][0])
        for o in others[:1]:
            s3 = st.copy()
            r = call1(eng, s3, f, [e, o], site)
            if r[0] == "app" and r[1] == "cmp" and eng.deepderef(s3, r[2][1]) == k:
                return ("app", "reversed", (k,))
        return k
    if r[0] == "adt" and r[1].endswith("cmp::Ordering"):
        # strings known entirely: look for the key among the strings of the element
        for k in strings_in(e):
            if all(cmp_as(eng, st, f, e, o, k, site) for o in others):
                return k
    return top("comparator")


def strings_in(v, depth=0):
    if v[0] == "str":
        yield v
    elif v[0] in ("adt", "tup") and depth < 4:
        for x in v[3] if v[0] == "adt" else v[1]:
            yield from strings_in(x, depth + 1)


def cmp_as(eng, st, f, e, o, k, site):
    r = call1(eng, st.copy(), f, [e, o], site)
    if r[0] != "adt":
        return False
    path = next((i for i, x in enumerate(strings_in(e)) if x == k), None)
    ks = list(strings_in(o))
    if path is None or path >= len(ks) or lit_text(k) is None or lit_text(ks[path]) is None:
        return False
    a, b = lit_text(k).encode(), lit_text(ks[path]).encode()
    return r[2] == (0 if a < b else 1 if a == b else 2)


@model("core::clone::Clone::clone_from")
def clone_from(eng, st, c, args, site, dty):
    eng.store(st, args[0], eng.deepderef(st, args[1]))
    return UNIT


@model("Vec::reverse")
def vec_reverse(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    it = it_rev(eng, st, c, [mk_iter(s[1])], site, dty) if s is not None else None
    eng.store(st, args[0], ("seq", it[1]) if it else top("reverse"))
    return UNIT


@model("Vec::contains")
def vec_contains(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    x = eng.deref(st, args[1])
    base = eng.deref(st, args[0])
    if s is None:
        return top("contains")
    unk = False
    for g in flat(s[1]):
        r = eng.eq(st, seg_val(g), x)
        if r is True and g[0] in ("1", "+"):
            return TRUE
        if r is not False:
            unk = True
    if not unk:
        return FALSE
    return simp(eng, st, ("app", "contains", (base if is_term(base) else s, x)))


@model("Vec::dedup_by")
def vec_dedup_by(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    if s is not None and dedup_exact(eng, st, args[0], s, lambda a, b: eng.truth(st, call1(eng, st, args[1], [a, b], site))):
        return UNIT
    if s is not None and dedup_none(eng, s[1], lambda a, b: eng.truth(st, call1(eng, st, args[1], [a, b], site))):
        return UNIT
    eng.store(st, args[0], top("dedup_by"))
    return UNIT


def dedup_none(eng, segs, same):
    """whether no two elements that may be neighbours are the same; the elements of one segment differ in the names that
    are told apart"""
    out, fs = [], flat(segs)
    for x in fs:
        if x[0] not in "1?+*":
            return False
        v = seg_val(x)
        if x[0] in "+*":
            m = {}
            for g in getattr(eng.sc, "distinct", []):
                for a in list(g):
                    if a[0] == "sym" and a in atoms_of(v):
                        m[a] = ("sym", a[1] + "'") + a[2:]
                        g.add(m[a])
                        t = eng.tyof.get(a)
                        if t is not None:
                            eng.tyof[m[a]] = t
            out.append((v, subst(v, m)))
        out += [(v, seg_val(y)) for y in fs if y is not x]
    return all(same(b, a) is False for a, b in out)


def atoms_of(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if v and v[0] == "sym":
            acc.add(v)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                atoms_of(x, acc)
    elif isinstance(v, frozenset):
        for x in v:
            atoms_of(x, acc)
    return acc


def dedup_exact(eng, st, ref, s, same):
    """a list known element by element, of which the equality of neighbours is known"""
    if any(x[0] != "1" for x in s[1]):
        return False
    out = []
    for x in s[1]:
        r = same(x[1], out[-1][1]) if out else False
        if r is None:
            return False
        if not r:
            out.append(x)
    eng.store(st, ref, ("seq", tuple(out)))
    return True


@model("Vec::truncate", "Vec::resize", "Vec::dedup", "Vec::dedup_by_key", "Vec::swap", "Vec::rotate_left", "Vec::fill", "Vec::split_off", "Vec::swap_remove", "Vec::remove", "Vec::resize_with")
def vec_misc(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    s = seq_of(eng, st, args[0])
    if s is not None and n == "truncate":
        eng.store(st, args[0], ("seq", take_segs(eng, st, s[1], eng.deref(st, args[1]))))
        return UNIT
    if s is not None and n in ("remove", "swap_remove"):
        i = eng.deref(st, args[1])
        k = find_index(eng, st, s, i) if i[0] == "c" else None
        if k is not None and (n == "remove" or len(s[1]) == 1):
            eng.store(st, args[0], ("seq", s[1][:k] + s[1][k + 1:]))
            return s[1][k][1]
        if i == cint(0) and s[1] and s[1][0][0] == "1":
            eng.store(st, args[0], ("seq", s[1][1:]))
            return s[1][0][1]
        v = any_elem(s[1]) if s[1] else top("removed")
        eng.store(st, args[0], ("seq", weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in s[1]])))
        return v
    if s is not None and n in ("dedup", "dedup_by_key"):
        if all(x[0] == "1" for x in s[1]) and len(s[1]) < 2:
            return UNIT
        key = (lambda x: eng.deepderef(st, call1(eng, st, args[1], [x], site))) if n == "dedup_by_key" else (lambda x: eng.deepderef(st, x))
        if dedup_exact(eng, st, args[0], s, lambda a, b: eng.eq(st, key(a), key(b))) or dedup_none(eng, s[1], lambda a, b: eng.eq(st, key(a), key(b))):
            return UNIT
        eng.store(st, args[0], ("seq", (s[1][:1] if s[1] and s[1][0][0] in "1+" else ()) + weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in flat(s[1])][1 if s[1] and s[1][0][0] == "1" else 0:])))
        return UNIT
    if s is not None and n == "resize":
        # lengthening with copies
        h = getattr(eng.sc, "resize", None)
        r = h(eng, st, s, eng.deref(st, args[1]), args[2]) if h else None
        if r is not None:
            eng.store(st, args[0], r)
            return UNIT
        ln = seq_len(eng, st, s)
        src = ("range", ln, eng.deref(st, args[1]))
        eng.store(st, args[0], ("seq", s[1] + tuple(map_seg(x, lambda v: args[2]) for x in isegs(range_iter(eng, st, ("range",) + src[1:])))))
        return UNIT
    eng.store(st, args[0], top(n))
    return UNIT if n not in ("split_off", "swap_remove", "remove") else top(n)


@model("Vec::clear", "Map::clear", "Set::clear", "str::clear")
def clear(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if "str" in c["name"].lower() and "String" in c["name"]:
        eng.store(st, args[0], lit(""))
    elif v[0] in ("map", "set"):
        eng.store(st, args[0], (v[0], v[1], ()))
    else:
        eng.store(st, args[0], EMPTY)
    return UNIT


@model("Vec::reserve", "Map::reserve", "Vec::shrink_to_fit", "str::reserve", "Map::shrink_to_fit")
def reserve(eng, st, c, args, site, dty):
    return UNIT


@model("Vec::retain", "Vec::retain_mut")
def vec_retain(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    if s is None:
        eng.store(st, args[0], top("retain"))
        return UNIT
    it = it_filter(eng, st, c, [mk_iter(s[1]), args[1]], site, dty)
    eng.store(st, args[0], ("seq", it[1]))
    return UNIT


@model("Vec::concat", "Vec::join")
def vec_join(eng, st, c, args, site, dty):
    s = seq_of(eng, st, args[0])
    sep = eng.deref(st, args[1]) if len(args) > 1 else None
    if s is not None and all(x[0] == "1" for x in s[1]):
        vs = []
        for i, x in enumerate(s[1]):
            if i and sep is not None:
                vs.append(sep)
            vs.append(eng.deref(st, x[1]))
        if all(v[0] in ("str", "sym", "proj", "app", "phi") for v in vs):
            return cat(vs)
    return top("join")


@model("Vec::split_first", "Vec::split_last", "Vec::split_at", "Vec::chunks", "Vec::windows")
def vec_split(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    s = seq_of(eng, st, args[0])
    if s is not None and n in ("split_first", "split_last"):
        if not s[1]:
            return NONE
        k = 0 if n == "split_first" else -1
        if s[1][k][0] == "1":
            return some(("tup", (s[1][k][1], ("seq", s[1][1:] if k == 0 else s[1][:-1]))))
        if s[1][k][0] == "+":
            rest = weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in s[1]])
            return some(("tup", (s[1][k][2], ("seq", rest))))
        rest = weaken([(x[0], x[1], x[2], False) if x[0] in "+*" else x for x in s[1]])
        return mkphi([NONE, some(("tup", (any_elem(s[1]), ("seq", rest))))])
    if s is not None and n == "split_at":
        k = eng.deref(st, args[1])
        return ("tup", (("seq", take_segs(eng, st, s[1], k)), ("seq", skip_segs(eng, st, s[1], k))))
    return top(n)


@model("core::slice::from_ref", "core::array::from_ref")
def from_ref(eng, st, c, args, site, dty):
    return ("seq", (("1", args[0]),))


# ------------------------------------------------------------------ maps and sets
@model("Map::new", "Map::with_capacity", "Set::new", "Set::with_capacity", "Map::with_hasher", "Set::with_hasher")
def map_new(eng, st, c, args, site, dty):
    n = eng.p.types[dty]["path"].rsplit("::", 1)[-1]
    return empty_coll(n)


def key_known(eng, k):
    """a key that the analysis lost track of says nothing about what is found, missing or overwritten: the cell stays open"""
    if has_top(k):
        eng.unmodelled["an unknown key"] = 1
        return False
    return True


def map_put(eng, st, m, k, v, mult="1", src=None):
    key_known(eng, k)
    out = []
    hit = False
    for e in m[2]:
        r = eng.eq(st, e[0], k)
        if r is True:
            hit = True
            if mult in ("1", "+"):
                out.append((e[0], v, "1" if mult == "1" and e[2] in "1?" else ("+" if "+" in (mult, e[2]) else e[2] if e[2] != "?" else mult), e[3] if e[3] is not None else src))
            else:
                out.append((e[0], join(e[1], v), e[2] if e[2] in "1+" else mult, e[3]))
        else:
            out.append(e)
    if not hit:
        if mult == "1":
            out.append((k, v, "1", None))
        elif mult == "?":
            out.append((k, v, "?", None))
        else:
            out.append((k, v, mult, src))
    return (m[0], m[1], tuple(out))


def map_get(eng, st, m, k):
    """Option of the value under key k"""
    key_known(eng, k)
    m = eng.deref(st, m)
    if m[0] == "phi":
        r = None
        for a in m[1]:
            r = join(r, map_get(eng, st, a, k))
        return r
    if is_term(m):
        mm = eng.as_map(m)
        for e in mm[2]:
            if eng.eq(st, e[0], k) is True:
                return some(e[1])
        bt = eng.ptype(m)
        t = ("app", "get", (m, k))
        if bt is not None and len(bt.get("args") or []) > 1 and t not in eng.tyof:
            oi = eng.p.find_ty("core::option::Option<&%s>" % eng.p.types[bt["args"][1]]["s"])
            if oi is not None:
                eng.tyof[t] = oi
        r = eng.truth_opt(st, t) if hasattr(eng, "truth_opt") else eng.decide(st, t)
        if r == 0:
            return NONE
        pay = eng.mkproj(t, ("f", 1, 0), bt["args"][1] if bt is not None and len(bt.get("args") or []) > 1 else None)
        if r == 1:
            return some(pay)
        return mkphi([NONE, some(pay)])
    if m[0] not in ("map", "set"):
        return top("lookup")
    may = []
    for e in m[2]:
        r = eng.eq(st, e[0], k)
        if r is True:
            if e[2] in ("1", "+"):
                return some(resolve1(e[1]))
            may.append(e[1])
            return mkphi([NONE, some(resolve1(e[1]))])
        if r is None:
            may.append(resolve1(e[1]))
    if not may:
        return NONE
    return mkphi([NONE] + [some(x) for x in may])


@model("Map::get", "Set::get")
def m_get(eng, st, c, args, site, dty):
    k = eng.deref(st, args[1])
    v = map_get(eng, st, args[0], k)
    if c["name"].endswith("Set::get"):
        return v
    return v


@model("Map::get_mut")
def m_get_mut(eng, st, c, args, site, dty):
    m = eng.deref(st, args[0])
    k = eng.deref(st, args[1])
    r = last_ref(eng, st, args[0])
    if m[0] != "map":
        m2 = eng.as_map(m)
        if m2 is None or r[0] != "ref":
            return top("get_mut")
        eng.store(st, r, m2)
        m = m2
    may = []
    for e in m[2]:
        x = eng.eq(st, e[0], k)
        h = ("ref", r[1], r[2] + (("ent", e[0]),)) if r[0] == "ref" else top("slot")
        if x is True:
            if e[2] in ("1", "+"):
                return some(h)
            return [(NONE, st.copy()), (some(h), st)]
        if x is None:
            may.append(h)
    if not may:
        return NONE
    return [(NONE, st.copy())] + [(some(h), st.copy()) for h in may]


@model("Map::insert")
def m_insert(eng, st, c, args, site, dty):
    m = eng.as_map(eng.deref(st, args[0]))
    if m is None:
        eng.store(st, args[0], top("insert"))
        return top("insert")
    k = eng.deref(st, args[1])
    old = map_get(eng, st, m, k) if m[2] else NONE
    eng.store(st, args[0], map_put(eng, st, m, k, args[2]))
    return old


@model("Set::insert")
def s_insert(eng, st, c, args, site, dty):
    m = eng.as_map(eng.deref(st, args[0]))
    if m is None:
        eng.store(st, args[0], top("insert"))
        return top("insert")
    k = eng.deref(st, args[1])
    had = map_get(eng, st, m, k)
    eng.store(st, args[0], map_put(eng, st, m, k, UNIT))
    if had == NONE:
        return TRUE
    return FALSE if had[0] == "adt" else top("insert")


@model("Map::remove", "Set::remove", "Map::remove_entry", "Set::take")
def m_remove(eng, st, c, args, site, dty):
    m = eng.as_map(eng.deref(st, args[0]))
    n = c["name"]
    if m is None:
        eng.store(st, args[0], top("remove"))
        return top("remove")
    k = eng.deref(st, args[1])
    out, got = [], NONE
    for e in m[2]:
        r = eng.eq(st, e[0], k)
        val = e[1] if not n.endswith("remove_entry") else ("tup", (e[0], e[1]))
        if r is True:
            got = some(val) if e[2] in "1+" else mkphi([NONE, some(val)])
            continue
        if r is None:
            got = join(got, mkphi([NONE, some(val)]))
            out.append((e[0], e[1], WEAK[e[2]], e[3]))
        else:
            out.append(e)
    eng.store(st, args[0], (m[0], m[1], tuple(out)))
    if "Set" in n:
        return TRUE if got[0] == "adt" and got != NONE else (FALSE if got == NONE else top("remove"))
    return got


@model("Map::contains_key", "Set::contains", "Map::contains")
def m_contains(eng, st, c, args, site, dty):
    m = eng.deref(st, args[0])
    k = eng.deref(st, args[1])
    return contains(eng, st, m, k)


def contains(eng, st, m, k):
    if m[0] == "phi":
        rs = [contains(eng, st, x, k) for x in m[1]]
        return mkphi(rs)
    if k[0] == "phi":
        return mkphi([contains(eng, st, m, x) for x in k[1]])
    if m[0] == "top":
        return top("contains")
    mm = eng.as_map(m)
    if mm is None:
        return top("contains")
    unk = False
    for e in mm[2]:
        r = eng.eq(st, e[0], k)
        if r is True and (e[2] in ("1", "+") or is_term(m)):
            return TRUE
        if r is not False:
            unk = True
    if not unk:
        return FALSE
    t = ("app", "contains", (m, k))
    return simp(eng, st, t) if not has_top(t) else top("contains")


def has_top(v):
    if isinstance(v, tuple):
        if v and v[0] == "top":
            return True
        return any(has_top(x) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(has_top(x) for x in v)
    return False


@model("Map::retain", "Set::retain")
def m_retain(eng, st, c, args, site, dty):
    m = eng.as_map(eng.deref(st, args[0]))
    if m is None:
        eng.store(st, args[0], top("retain"))
        return UNIT
    out = []
    for e in m[2]:
        if m[0] == "set":
            p = call1(eng, st, args[1], [e[0]], site)
            v = e[1]
        else:
            cell = tmp(eng)
            st.cells[cell] = e[1]
            p = call1(eng, st, args[1], [e[0], ("ref", cell, ())], site)
            v = st.cells.pop(cell)
        r = eng.truth(st, p)
        if r is True:
            out.append((e[0], v, e[2], e[3]))
        elif r is None:
            if is_term(p):
                h = getattr(eng.sc, "kept", None)
            out.append((e[0], v, WEAK[e[2]], e[3]))
    eng.store(st, args[0], (m[0], m[1], tuple(out)))
    return UNIT


@model("Set::intersection", "Set::union", "Set::difference", "Set::symmetric_difference")
def s_op(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    r = set_op(eng, st, c["name"].rsplit("::", 1)[-1], a, b)
    return eng.iter_of(st, r) if r[0] == "set" else mk_iter((("*", ("setop",), top("element"), False),))


def set_op(eng, st, op, a, b):
    ma, mb = eng.as_map(a), eng.as_map(b)
    if ma is None or mb is None:
        return top(op)
    if is_term(a) and is_term(b):
        t = ("app", "set." + op, (a, b) if op == "difference" or repr(a) <= repr(b) else (b, a))
        if a in eng.tyof:
            eng.tyof.setdefault(t, eng.tyof[a])
        kt = eng.ptype(a)["args"][0] if eng.ptype(a) else None
        return ("set", ma[1], ((eng.mkproj(t, ("key",), kt), UNIT, "*", t),))
    out = []
    for e in ma[2]:
        c = contains(eng, st, b, e[0])
        r = eng.truth(st, c)
        if op == "intersection":
            if r is True:
                out.append(e)
            elif r is None:
                out.append((e[0], e[1], WEAK[e[2]], e[3]))
        elif op in ("difference", "symmetric_difference"):
            if r is False:
                out.append(e)
            elif r is None:
                out.append((e[0], e[1], WEAK[e[2]], e[3]))
        else:
            out.append(e)
    if op in ("union", "symmetric_difference"):
        m = ("set", ma[1], tuple(out))
        for e in mb[2]:
            if op == "symmetric_difference":
                r = eng.truth(st, contains(eng, st, a, e[0]))
                if r is True:
                    continue
                if r is None:
                    m = map_put(eng, st, m, e[0], UNIT, WEAK[e[2]], e[3])
                    continue
            m = map_put(eng, st, m, e[0], UNIT, e[2], e[3])
        return m
    return ("set", ma[1], tuple(out))


@model("Set::is_subset", "Set::is_superset", "Set::is_disjoint")
def s_rel(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    a, b = (eng.as_map(eng.deref(st, x)) for x in (args[:2] if n != "is_superset" else args[1::-1]))
    if a is not None and b is not None:
        has = [(e, eng.truth(st, contains(eng, st, b, e[0]))) for e in a[2]]
        good = n == "is_disjoint"
        if any(e[2] in "1+" and r is good for e, r in has):
            return FALSE
        if all(r is (not good) for e, r in has):
            return TRUE
    eng.unmodelled[n + " of sets known in part"] = 1
    return top(n)


# entry API
@model("Map::entry")
def m_entry(eng, st, c, args, site, dty):
    return ("adt", "entry", 0, (args[0], args[1]))


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key")
def e_or_insert(eng, st, c, args, site, dty):
    e = args[0]
    if e[0] != "adt" or e[1] != "entry":
        return top("entry")
    mref, k = e[3][0], eng.deref(st, e[3][1])
    n = c["name"].rsplit("::", 1)[-1]
    r = last_ref(eng, st, mref)
    m = eng.as_map(eng.deref(st, mref))
    if m is None or r[0] != "ref":
        return top("entry")

    def make():
        if n == "or_insert":
            return args[1]
        if n == "or_default":
            t = eng.p.types[dty]
            return default_of(eng, st, t["args"][0], site)
        return eng.call_value(st, args[1], [k] if n.endswith("key") else [], site)
    for x in m[2]:
        q = eng.eq(st, x[0], k)
        if q is True:
            if x[2] in "?*":
                new = make()
                eng.store(st, r, (m[0], m[1], tuple((y[0], join(y[1], new), "1" if y[2] == "?" else "+", y[3]) if y is x else y for y in m[2])))
            else:
                eng.store(st, r, m)
            return ("ref", r[1], r[2] + (("ent", x[0]),))
    new = make()
    m = eng.as_map(eng.deref(st, mref))
    eng.store(st, r, map_put(eng, st, m, k, new))
    return ("ref", r[1], r[2] + (("ent", k),))


@model("Entry::and_modify")
def e_and_modify(eng, st, c, args, site, dty):
    e = args[0]
    if e[0] != "adt" or e[1] != "entry":
        return top("entry")
    mref, k = e[3][0], eng.deref(st, e[3][1])
    r = last_ref(eng, st, mref)
    m = eng.as_map(eng.deref(st, mref))
    if m is None or r[0] != "ref":
        return top("entry")
    eng.store(st, r, m)
    for x in m[2]:
        q = eng.eq(st, x[0], k)
        if q is True:
            h = ("ref", r[1], r[2] + (("ent", x[0]),))
            if x[2] in "1+":
                eng.call_value(st, args[1], [h], site)
            else:
                s2 = st.copy()
                eng.call_value(s2, args[1], [h], site)
                st.assign(_join_state(st, s2))
    return e


@model("Entry::key")
def e_key(eng, st, c, args, site, dty):
    e = eng.deref(st, args[0])
    return e[3][1] if e[0] == "adt" and e[1] == "entry" else top("entry")


# ------------------------------------------------------------------ strings
@model("str::new", "str::with_capacity")
def str_new(eng, st, c, args, site, dty):
    return lit("")


@model("str::from", "str::from_str_")
def str_from(eng, st, c, args, site, dty):
    return eng.deref(st, args[0])


@model("str::push_str", "str::push")
def push_str(eng, st, c, args, site, dty):
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    eng.store(st, args[0], cat([a, b]))
    return UNIT


@model("str::insert", "str::insert_str")
def str_insert(eng, st, c, args, site, dty):
    a, i, b = (eng.deref(st, x) for x in args)
    eng.store(st, args[0], cat([b, a]) if i == cint(0) else top("insert"))
    return UNIT


def str_len(eng, v):
    s = str_const(v)
    if s is not None:
        return cint(len(s.encode()))
    if v[0] == "top":
        return v
    return ("app", "str.len", (v,))


@model("str::len")
def s_len(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    return pmap(v, lambda x: str_len(eng, x))


@model("str::is_empty")
def s_is_empty(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])

    def one(v):
        if v[0] == "top":
            return top("is_empty")
        segs = segs_of(v)
        if not segs:
            return TRUE
        for s in segs:
            if s[0] == "lit" or (s[0] == "ch" and s[3] != "*"):
                return FALSE
        return simp(eng, st, ("app", "str.is_empty", (v,)))
    return pmap(v, one)


@model("str::chars", "str::char_indices")
def s_chars(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    idx = c["name"].endswith("char_indices")
    if v[0] == "top" or v[0] == "phi":
        return mk_iter((("*", ("chars", v), top("char"), True),))
    if idx:
        s = str_const(v)
        if s is not None:
            return mk_iter(("1", ("tup", (cint(len(s[:i].encode())), ("c", "char", x)))) for i, x in enumerate(s))
        return mk_iter((("*", ("char_indices", v), ("tup", (("proj", v, ("cidx",)), ("proj", v, ("elem",)))), True),))
    return mk_iter(char_segs(v))


@model("str::bytes")
def s_bytes(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if v[0] == "top" or v[0] == "phi":
        return mk_iter((("*", ("bytes", v), top("byte"), True),))
    return mk_iter(byte_segs(v))


def byte_segs(v):
    """the bytes of a string: an ASCII character is its byte, another one is several bytes of class x"""
    out = []
    for i, s in enumerate(segs_of(v)):
        if s[0] == "lit":
            out += [("1", cint(b)) for b in s[1].encode()]
        elif s[0] == "ch":
            cls = absstr.classes_of(("char", s))
            wide = cls & {"n", "a", "x"}
            if wide and cls != wide:
                absstr.note(("char", s))
            m, ch = s[3], ("ch", s[1], cls, "1")
            if wide:
                m, ch = ("*" if m == "*" else "+"), ("ch", ("bytes", s[1]), (cls - wide) | {"x"}, "1")
            out.append(("1", ("char", ch)) if m == "1" else (m, ("bytes", v, i), ("char", ch), True))
        else:
            out.append(("*", ("bytes", s[1]), top("byte"), True))
    return tuple(out)


def char_segs(v):
    segs = segs_of(v)
    if not any(s[0] == "ch" for s in segs) and any(s[0] == "t" for s in segs):
        return (("*" if not any(s[0] == "lit" for s in segs) else "+", ("chars", v), ("proj", v, ("elem",)), True),)
    out = []
    for i, s in enumerate(segs):
        if s[0] == "lit":
            out += [("1", ("c", "char", x)) for x in s[1]]
        elif s[0] == "ch":
            if s[3] == "1":
                out.append(("1", ("char", s)))
            else:
                out.append((s[3], ("chars", v, i), ("char", s[:3] + ("1",)), True))
        else:
            out.append(("*", ("chars", s[1]), ("proj", s[1], ("elem",)), True))
    return tuple(out)


@model("str::replace", "str::replacen")
def s_replace(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    pat = eng.deref(st, args[1])
    to = str_const(eng.deref(st, args[2]))
    if to is None or c["name"].endswith("replacen"):
        return eng.app("str.replace", [v, pat, eng.deref(st, args[2])])
    chars = pat_chars(pat)
    pred = pat if pat[0] in ("clo", "fn") else None
    if chars is None and pred is None:
        p = str_const(pat)
        s = str_const(v)
        if p is not None and s is not None:
            return lit(s.replace(p, to))
        if p is not None and len(p) == 1:
            chars = [p]
        else:
            return eng.app("str.replace", [v, pat, lit(to)]) if v[0] != "top" else v

    def cls(cl):
        """True / False / None: does the pattern take characters of this class"""
        if chars is not None:
            hit = [c for c in chars if absstr.class_of(c) == cl]
            if not hit:
                return False
            return True if cl in absstr.SINGLE else None
        r = eng.truth(st, call1(eng, st, pred, [("char", ("ch", ("any",), frozenset([cl]), "1"))], site))
        return r

    def one(v):
        if v[0] == "top":
            return v
        out = []
        for s in segs_of(v):
            if s[0] == "lit":
                t = ""
                for ch in s[1]:
                    if chars is not None:
                        h = ch in chars
                    else:
                        h = eng.truth(st, call1(eng, st, pred, [("c", "char", ch)], site))
                        if h is None:
                            return eng.app("str.replace", [v, pat, lit(to)])
                    t += to if h else ch
                out.append(("lit", t))
            elif s[0] == "ch":
                d = {cl: cls(cl) for cl in s[2]}
                if any(x is None for x in d.values()):
                    return eng.app("str.replace", [v, pat, lit(to)])
                r = absstr.map_seg_chars(s, lambda cl: to if d[cl] else None) if len(to) == 1 or not any(d.values()) else None
                if r is None:
                    return eng.app("str.replace", [v, pat, lit(to)])
                out += r
            else:
                return eng.app("str.replace", [v, pat if chars is None else ("chars", tuple(sorted(chars))), lit(to)])
        return mkstr(out)
    return pmap(v, one)


def pat_chars(pat):
    if pat[0] == "seq" and all(s[0] == "1" and s[1][0] == "c" for s in pat[1]):
        return [s[1][2] for s in pat[1]]
    if pat[0] == "c" and pat[1] == "char":
        return [pat[2]]
    return None


@model("str::starts_with", "str::ends_with", "str::contains", "str::eq_ignore_ascii_case")
def s_starts(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    pat = eng.deref(st, args[1])
    n = c["name"].rsplit("::", 1)[-1]

    def one(v):
        if v[0] == "top":
            return top(n)
        segs = list(segs_of(v))
        chars = pat_chars(pat)
        pred = pat if pat[0] in ("clo", "fn") else None
        p = str_const(pat) if chars is None and pred is None else None
        s = str_const(v)
        if p is not None:
            if n == "starts_with":
                if s is not None:
                    return cbool(s.startswith(p))
                if segs and segs[0][0] == "lit":
                    k = min(len(segs[0][1]), len(p))
                    if segs[0][1][:k] != p[:k]:
                        return FALSE
                    if len(p) <= len(segs[0][1]):
                        return TRUE
            if n == "ends_with" and s is not None:
                return cbool(s.endswith(p))
            if n == "contains":
                if s is not None:
                    return cbool(p in s)
                if any(x[0] == "lit" and p in x[1] for x in segs):
                    return TRUE
            if n == "eq_ignore_ascii_case":
                lower = lambda x: "".join(c.lower() if c.isascii() else c for c in x)  # noqa: E731
                if s is not None:
                    return cbool(lower(s) == lower(p))
                if segs and segs[0][0] == "lit" and lower(segs[0][1][:len(p)]) != lower(p[:len(segs[0][1])]):
                    return FALSE
            if len(p) == 1 and n != "eq_ignore_ascii_case":
                chars = [p]
        if n in ("starts_with", "ends_with") and (chars is not None or pred is not None):
            if not segs:
                return FALSE
            x = segs[0 if n == "starts_with" else -1]
            if x[0] == "lit":
                ch = x[1][0 if n == "starts_with" else -1]
                if chars is not None:
                    return cbool(ch in chars)
                return call1(eng, st, pred, [("c", "char", ch)], site)
            if x[0] == "ch" and x[3] in ("1", "+"):
                cv = ("char", x[:3] + ("1",))
                if chars is not None:
                    rs = [absstr.char_is(eng, st, cv, k) for k in chars]
                    if any(r is True for r in rs):
                        return TRUE
                    if all(r is False for r in rs):
                        return FALSE
                else:
                    r = None
                    for _, k in (split_chars(cv) or [(None, cv)]):
                        r = join(r, call1(eng, st, pred, [k], site))
                    if x[3] == "1" and eng.truth(st, r) is None:
                        absstr.note(cv)
                    return r
        if n == "contains" and (chars is not None or pred is not None):
            unk = False
            for x in segs:
                if x[0] == "lit":
                    rs = [(ch in chars) if chars is not None else eng.truth(st, call1(eng, st, pred, [("c", "char", ch)], site)) for ch in x[1]]
                elif x[0] == "ch":
                    rs = []
                    for cl in x[2]:
                        cv = ("char", ("ch", x[1], frozenset([cl]), "1"))
                        if chars is not None:
                            q = [absstr.char_is(eng, st, cv, k) for k in chars]
                            rs.append(True if True in q else (None if None in q else False))
                        else:
                            rs.append(eng.truth(st, call1(eng, st, pred, [cv], site)))
                    if rs and all(r is True for r in rs) and x[3] in ("1", "+"):
                        return TRUE
                    if any(r is not False for r in rs):
                        unk = True
                    continue
                else:
                    unk = True
                    continue
                if any(r is True for r in rs):
                    return TRUE
                if any(r is None for r in rs):
                    unk = True
            return top(n) if unk else FALSE
        t = ("app", "str." + n, (v, pat))
        return simp(eng, st, t) if not has_top(t) and pred is None else top(n)
    return pmap(v, one)


@model("str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase",
       "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::strip_prefix", "str::strip_suffix", "str::split", "str::split_once",
       "str::rsplit", "str::rsplit_once", "str::splitn", "str::repeat", "str::lines", "str::find", "str::rfind", "str::get", "str::split_at", "str::char_count",
       "str::chars_rev", "str::floor_char_boundary", "str::is_char_boundary", "str::split_whitespace", "str::parse", "str::is_ascii", "str::matches")
def s_other(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    v = eng.deref(st, args[0])
    s = str_const(v)
    rest = [eng.deref(st, a) for a in args[1:]]
    if s is not None and not rest:
        f = {"trim": str.strip, "to_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_lowercase": str.lower, "to_ascii_uppercase": str.upper,
             "trim_start": str.lstrip, "trim_end": str.rstrip}.get(n)
        if f:
            return lit(f(s))
    if n in ("strip_prefix",) and rest:
        p = str_const(rest[0]) if rest[0][0] == "str" else (rest[0][2] if rest[0][0] == "c" else None)
        segs = segs_of(v) if v[0] not in ("top", "phi") else ()
        if p and segs and segs[0][0] == "lit":
            if segs[0][1].startswith(p):
                return some(mkstr((("lit", segs[0][1][len(p):]),) + tuple(segs[1:])))
            if not p.startswith(segs[0][1]):
                return NONE
    if n == "is_ascii":
        if v[0] == "str" and all(x[0] == "lit" and x[1].isascii() or x[0] == "ch" and not (x[2] & {"n", "a", "x"}) for x in v[1]):
            return TRUE
    if v[0] == "top" or any(has_top(r) for r in rest):
        return top(n)
    if n in ("split", "rsplit", "splitn", "lines", "split_whitespace", "matches"):
        t = eng.app("str." + n, [v] + rest)
        return mk_iter((("*", t, eng.mkproj(t, ("elem",)), True),))
    return eng.app("str." + n, [v] + rest, dty)


def str_slice(eng, st, base, ix):
    if ix[0] == "adt":
        return base
    lo = eng.deref(st, ix[1])
    s = str_const(base)
    if len(ix) == 2 and lo == cint(0):
        return base
    if s is not None and all(x[0] == "c" for x in (lo,) + ((eng.deref(st, ix[2]),) if len(ix) > 2 else ())):
        hi = eng.deref(st, ix[2])[2] if len(ix) > 2 else None
        return lit(s.encode()[lo[2]:hi].decode("utf8", "replace"))
    if base[0] == "top":
        return base
    if len(ix) > 2 and lo == cint(0):
        hi = eng.deref(st, ix[2])
        if hi[0] == "app" and hi[1] == "byteat" and hi[2][0] == base:
            return ("app", "str.take", (base, hi[2][1]))
    for n in (lo,) + ((eng.deref(st, ix[2]),) if len(ix) > 2 else ()):
        byte_position(eng, st, base, n, True)
    return eng.app("str.slice", [base, lo] + ([eng.deref(st, ix[2])] if len(ix) > 2 else []))


def byte_position(eng, st, v, n, within):
    """a text cut at the constant byte position n: aborts inside of a character (or, with within, behind the end)"""
    if n[0] != "c" or n[1] != "int" or n[2] == 0:
        return
    left = n[2]
    for s in segs_of(v) if v[0] == "str" or is_term(v) else (("?",),):
        if left <= 0:
            return
        if s[0] == "lit":
            b = s[1].encode()
            if len(b) >= left:
                if b[:left].decode("utf8", "ignore").encode() != b[:left]:
                    abort_event(eng, "sure", ("position inside of a character", str(n[2])))
                return
            left -= len(b)
        elif s[0] == "ch" and s[3] == "1" and not s[2] & {"n", "a", "x"}:
            left -= 1
        elif s[0] == "t" and any(f[0] == "app" and f[1].endswith(("is_ascii", "is_char_boundary")) for f in st.facts):
            abort_event(eng, "maybe", ("position in a text", str(n[2])))
            return
        elif s[0] in ("t", "ch"):
            t = s[1]
            abort_event(eng, "sure" if s[0] == "ch" or from_input(t) else "maybe", ("position inside of a character", str(n[2])))
            return
        else:
            return
    if within and left > 0:
        abort_event(eng, "sure", ("position behind the end of a text", str(n[2])))


@model("str::truncate")
def s_truncate(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    n = eng.deref(st, args[1])
    byte_position(eng, st, v, n, False)
    if n[0] == "app" and n[1] == "byteat" and n[2][0] == v:
        eng.store(st, args[0], ("app", "str.take", (v, n[2][1])))
        return UNIT
    if str_const(v) is not None and n[0] == "c":
        eng.store(st, args[0], lit(str_const(v).encode()[:n[2]].decode("utf8", "replace")))
        return UNIT
    eng.store(st, args[0], eng.app("str.truncate_bytes", [v, n]) if v[0] != "top" else v)
    return UNIT


@model("str::pop", "str::remove")
def s_pop(eng, st, c, args, site, dty):
    eng.store(st, args[0], top("shortened string"))
    return top("char")


def _charpred(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    v = eng.deref(st, args[0])

    def one(x):
        r = absstr.char_pred(of_byte(x), n)
        if r is None:
            if x[0] in ("top", "char"):
                return top(n)
            return simp(eng, st, ("app", n, (x,)))
        return cbool(r)
    return pmap(v, one)


for _n in list(absstr.PREDS) + ["is_digit"]:
    T["char::" + _n] = _charpred
    if _n.startswith("is_ascii"):
        T["int::" + _n] = _charpred


@model("char::to_ascii_lowercase", "char::to_ascii_uppercase", "char::to_lowercase", "char::to_uppercase", "char::len_utf8", "char::to_digit", "char::from_digit")
def char_other(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    return top(c["name"]) if v[0] in ("top", "char", "phi") else eng.app(c["name"].rsplit("::", 1)[-1], [v], dty)


@model("heck::snake::ToSnakeCase::to_snake_case", "heck::ToSnakeCase::to_snake_case")
def snake(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    h = getattr(eng.sc, "snake", None)
    r = h(eng, st, v) if h else None
    if r is not None:
        return r
    if v[0] == "top":
        return v
    if v[0] == "phi":
        return mkphi([eng.app("snake", [x]) for x in v[1]])
    return eng.app("snake", [v])


# ------------------------------------------------------------------ integers: named operations
@model("int::saturating_sub", "int::saturating_add", "int::wrapping_add", "int::wrapping_sub", "int::checked_sub", "int::checked_add", "int::pow", "int::min", "int::max", "int::abs_diff")
def int_ops(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    if n in ("min", "max"):
        return maxmin(eng, st, c, args, site, dty)
    if n.endswith("_add"):
        r = add(a, b)
        return some(r) if n.startswith("checked") else r
    if n.endswith("_sub"):
        lt = int_cmp(eng, st, "lt", a, b)
        if lt is False:
            return sub(a, b) if not n.startswith("checked") else some(sub(a, b))
        if lt is True:
            return cint(0) if n.startswith("sat") else (NONE if n.startswith("checked") else top(n))
        if has_top(a) or has_top(b):
            return top(n)
        d = ("app", "satsub", (a, b))
        return d if not n.startswith("checked") else mkphi([NONE, some(d)])
    return top(n)


# ------------------------------------------------------------------ regex, serde_json
RB = "regex::builders::string::RegexBuilder::"


@model(RB + "new")
def rb_new(eng, st, c, args, site, dty):
    return ("app", "regex builder", (eng.deref(st, args[0]),))


@model(*(RB + n for n in ("case_insensitive", "multi_line", "swap_greed", "ignore_whitespace", "crlf", "dot_matches_new_line", "unicode", "octal", "size_limit", "dfa_size_limit", "nest_limit")))
def rb_opt(eng, st, c, args, site, dty):
    """an option changed from its default is a flag of the pattern; what only matters for line ends or resources is none"""
    n = c["name"].rsplit("::", 1)[-1]
    b, v = eng.deref(st, args[0]), eng.deref(st, args[1])
    if b[0] != "app" or b[1] != "regex builder":
        return NotImplemented
    if n in ("dot_matches_new_line", "size_limit", "dfa_size_limit", "nest_limit", "crlf", "octal"):
        return args[0]
    if v not in (TRUE, FALSE) or (n == "unicode" and v == FALSE):
        return NotImplemented
    if n != "unicode" and v == TRUE:
        pre = lit({"case_insensitive": "(?i)", "multi_line": "(?m)", "swap_greed": "(?U)", "ignore_whitespace": "(?x)"}[n])
        eng.store(st, args[0], ("app", "regex builder", (cat([pre, b[2][0]]),)))
    return args[0]


@model("regex::regex::string::Regex::new", "regex::Regex::new", "regex::builders::string::RegexBuilder::build")
def regex_new(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if v[0] == "app" and v[1] == "regex builder":
        v = v[2][0]
    s = str_const(v)
    if s is not None:
        return ok(eng.app("regex", [v]))
    if v[0] == "phi":
        return mkphi([eng.app("regex::new", [x], dty) for x in v[1]])
    return eng.app("regex::new", [v], dty) if v[0] != "top" else v


@model("regex::regex::string::Regex::is_match", "regex::Regex::is_match")
def regex_is_match(eng, st, c, args, site, dty):
    r, v = eng.deref(st, args[0]), eng.deref(st, args[1])
    if r[0] == "app" and r[1] == "regex":
        p = str_const(r[2][0])

        def one(x):
            if x[0] == "top":
                return top("match")
            m = absstr.regex_match(p, x)
            return cbool(m) if m is not None else (simp(eng, st, ("app", "is_match", (r, x))) if not any(s[0] == "ch" for s in segs_of(x)) else top("match"))
        return pmap(v, one)
    if has_top(r) or has_top(v):
        return top("match")
    return simp(eng, st, ("app", "is_match", (r, v)))


@model("regex::regex::string::Regex::find", "regex::regex::string::Regex::captures", "regex::regex::string::Regex::shortest_match", "regex::Regex::find", "regex::Regex::captures")
def regex_find(eng, st, c, args, site, dty):
    """something is found exactly when the pattern matches; what and where is not known"""
    r0 = eng.deref(st, args[0])
    if not (r0[0] == "app" and r0[1] == "regex"):
        eng.unmodelled["where a pattern matches"] = 1
    m = regex_is_match(eng, st, c, args[:2], site, dty)
    found = some(("app", c["name"].rsplit("::", 1)[-1], (eng.deref(st, args[0]), eng.deref(st, args[1]))))
    r = eng.truth(st, m) if m[0] != "top" else None
    if r is None:
        eng.decide(st, m) if is_term(m) else None
        return mkphi([NONE, found])
    return found if r else NONE


JVALUE = "serde_json::value::Value"


@model("serde_json::value::to_value", "serde_json::to_value", "serde_json::value::ser::to_value")
def to_value(eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if v[0] == "top":
        return ok(v)
    ti = eng.p.types[dty]["args"][0]

    def one(x):
        bt = eng.ptype(x) if is_term(x) else None
        if x[0] == "adt" and x[1] == JVALUE or bt is not None and bt["k"] == "adt" and bt["path"] == JVALUE:
            return x
        if x[0] == "str" or x[0] == "lit" or is_coll(bt, "String") or bt is not None and bt["s"] == "str":
            t = eng.adt_info(JVALUE)
            i = [n for n, w in enumerate(t["variants"]) if w["name"] == "String"][0] if t else 3
            return ("adt", JVALUE, i, (x,))
        return eng.app("json", [x], ti)
    return ok(pmap(v, one))


def deser_fns(eng, path, kind, method):
    """the generated visitor functions of a derived Deserialize implementation"""
    k = ("deser", path, kind, method)
    memo = eng.p.__dict__.setdefault("_deser", {})
    if k not in memo:
        memo[k] = [f for n, f in eng.p.fns.items() if " for %s>::deserialize::%s" % (path, kind) in n and ">::%s" % method in n
                   and n.split(">::" + method, 1)[1][:2] in ("::", "", " [")]
    return memo[k][0] if memo[k] else None


def deser_str(eng, st, path, s):
    """a local unit enum read from a string, by its (derived) implementation: Ok(variant) or Err"""
    f = deser_fns(eng, path, "__FieldVisitor", "visit_str")
    g = deser_fns(eng, path, "__Visitor", "visit_enum")
    if f is None or g is None:
        return None
    r = eng.run(f, [UNIT, s], st)

    def one(a):
        if a[0] == "adt" and a[1] == RES and a[2] == 0:
            return eng.run(g, [UNIT, ("app", "enum access", (a[3][0],))], st)
        if a[0] == "adt" and a[1] == RES:
            return err(("app", "unknown variant", (s,)))
        return top("field of " + path)
    return pmap(r, one)


@model("serde::de::EnumAccess::variant", "serde_core::de::EnumAccess::variant", "serde::de::EnumAccess::variant_seed")
def enum_access(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    if v[0] == "app" and v[1] == "enum access":
        return ok(("tup", (v[2][0], ("app", "unit variant", ()))))
    return NotImplemented


@model("serde::de::VariantAccess::unit_variant", "serde_core::de::VariantAccess::unit_variant")
def unit_variant(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    return ok(UNIT) if v == ("app", "unit variant", ()) else NotImplemented


@model("serde::de::Error::unknown_variant", "serde_core::de::Error::unknown_variant", "serde::de::Error::unknown_field")
def unknown_variant(eng, st, c, args, site, dty):
    return ("app", "unknown variant", (eng.deepderef(st, args[0]),))


def jvar(eng, name):
    t = eng.adt_info(JVALUE)
    return [i for i, w in enumerate(t["variants"]) if w["name"] == name][0] if t else {"Null": 0, "Bool": 1, "Number": 2, "String": 3, "Array": 4, "Object": 5}[name]


def jget(eng, st, v, ix):
    """Value::get by key: an Option, or None if unknown"""
    ix = eng.deref(st, ix)
    if v[0] != "adt" or v[1] != JVALUE:
        return None
    if v[2] != jvar(eng, "Object"):
        return NONE if segs_of(ix) is not None or is_term(ix) and (eng.ptype(ix) or {}).get("s") in ("str", "alloc::string::String") else None
    r = map_get(eng, st, v[3][0], ix)
    return r if r is not None and all(a[0] == "adt" for a in phi_alts(r)) else None


@model("serde_json::value::Value::get", "serde_json::value::Value::pointer")
def value_get(eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if c["name"].endswith("pointer"):
        return eng.app("value.pointer", [v, eng.deref(st, args[1])], dty)
    r = [jget(eng, st, a, args[1]) for a in phi_alts(v)]
    if any(x is None for x in r):
        return eng.app("value.get", [v, eng.deref(st, args[1])], dty)
    return mkphi(r)


def _as(kind):
    def m(eng, st, c, args, site, dty):
        v = eng.deepderef(st, args[0])

        def one(a):
            if a[0] == "adt" and a[1] == JVALUE:
                hit = a[2] == jvar(eng, kind)
                if c["name"].rsplit("::", 1)[-1].startswith("is_"):
                    return cbool(hit)
                return (some(a[3][0]) if a[3] else some(UNIT)) if hit else NONE
            return eng.app(c["name"], [a], dty)
        return pmap(v, one)
    return m


for _k, _n in (("String", "str"), ("Bool", "bool"), ("Object", "object"), ("Array", "array"), ("Null", "null")):
    T["serde_json::value::Value::as_" + _n] = _as(_k)
    T["serde_json::value::Value::is_" + ("boolean" if _n == "bool" else "string" if _n == "str" else _n)] = _as(_k)
T["serde_json::value::Value::is_number"] = _as("Number")


def jstr(eng, x):
    """the text of a JSON string value"""
    if x[0] == "adt" and x[1] == JVALUE:
        t = eng.adt_info(JVALUE)
        if t and t["variants"][x[2]]["name"] == "String":
            return x[3][0]
    return None


@model("serde_json::value::from_value", "serde_json::from_value", "serde_json::value::de::from_value", "serde_json::from_str", "serde_json::de::from_str")
def from_value(eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    if v[0] == "top":
        return v
    ti = eng.p.types[dty]["args"][0]
    t = eng.p.types[eng.p.peel(ti)]
    if t["k"] == "adt" and t.get("local") and t["adt"] == "enum" and c["name"].endswith("from_value"):
        def one(x):
            s = jstr(eng, x)
            if s is not None:
                r = deser_str(eng, st, t["path"], s)
                if r is not None:
                    return r
            if x[0] == "adt" and x[1] == JVALUE and all(not w["fields"] for w in t["variants"]):
                return err(("app", "invalid type", (x,)))
            return eng.app("from_value:" + t["s"], [x], dty)
        return pmap(v, one)
    t = eng.p.types[c["targs"][0]]["s"] if c.get("targs") else "?"
    return eng.app("from_value:" + t, [v], dty)


@model("core::ops::try_trait::Try::branch")
def try_branch(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    CF = "core::ops::control_flow::ControlFlow"
    alts = []
    for a in phi_alts(v):
        if a[0] == "adt":
            good = 1 if a[1] == OPT else 0
            var = a[2]
        elif is_term(a):
            bt = eng.ptype(a)
            good = 1 if is_coll(bt, "Option") else 0
            var = eng.decide(st, a)
        else:
            alts += [("adt", CF, 0, (top("?"),)), ("adt", CF, 1, (err(top("?")),))]
            continue
        if var is None or var == good:
            alts.append(("adt", CF, 0, (eng.get(a, ("f", good, 0)),)))
        if var is None or var != good:
            alts.append(("adt", CF, 1, (NONE if good == 1 else err(eng.get(a, ("f", 1, 0))),)))
    return mkphi(alts)


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(eng, st, c, args, site, dty):
    v = eng.deref(st, args[0])
    t = eng.p.types[dty]

    def one(a):
        if a[0] == "adt" and a[1] == RES:
            e = a[3][0]
            # the error type may be converted by From
            ta = t["args"][1] if t["k"] == "adt" and len(t["args"]) > 1 else None
            return err(e if ta is None else conv_err(eng, e, ta))
        return a
    return pmap(v, one)


def conv_err(eng, e, ti):
    return e


@model("core::ops::try_trait::Try::from_output")
def from_output(eng, st, c, args, site, dty):
    return some(args[0]) if is_coll(eng.p.types[dty], "Option") else ok(args[0])


@model("core::any::type_name", "core::any::TypeId::of")
def opaque_const(eng, st, c, args, site, dty):
    return eng.app(c["name"], [], dty)
