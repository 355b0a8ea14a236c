"""Snake-casing: the string pipeline of to_snake_case is read off the MIR as a term, its regular expressions are turned
into automata, and the word boundaries it makes are compared with those of heck for names of any length."""
from .values import *

INPUT = ("app", "cs:input", ())


class Unknown(Exception):
    pass


def cs(op, *xs):
    return ("app", "cs:" + op, tuple(xs))


def is_cs(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "app" and isinstance(v[1], str) and v[1].startswith("cs:")


def op(v):
    return v[1][3:]


WORDS = ("split", "filter", "mapw", "rwords")
STRINGS = ("input", "map", "rev", "join", "heck", "word", "trimmed")


def within(a):
    """the text is made of one word"""
    while is_cs(a) and op(a) in ("map", "rev", "trimmed"):
        a = a[2][0]
    return is_cs(a) and op(a) == "word"


class Strings:
    """models of the string operations on an opaque string"""

    def call(self, eng, st, c, args, site, dty):
        n = c["name"]
        m = n.rsplit("::", 1)[-1]
        if n.startswith("lazy_static::lazy::Lazy::") and m == "get" or m in ("get_or_init", "force") and len(args) == 2:
            return eng.call_value(st, args[1], [], site)
        vals = [eng.deepderef(st, a) if a[0] == "ref" else a for a in args]
        if n.endswith("Regex::new") and vals:
            s = str_const(vals[0])
            return ok(cs("regex", lit(s))) if s is not None else NotImplemented
        if not any(is_cs(v) for v in vals):
            return NotImplemented
        if n in ("core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref", "core::clone::Clone::clone", "core::convert::From::from", "core::convert::Into::into",
                 "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string", "core::iter::traits::collect::IntoIterator::into_iter") or m in ("as_str", "as_slice", "iter", "into_boxed_str", "into_string", "borrow", "copied", "cloned", "into_owned", "as_ref", "must_use"):
            return vals[0]
        a = vals[0]
        k = op(a) if is_cs(a) else None
        s = str_const(vals[1]) if len(vals) > 1 else None
        if k == "regex":
            b = vals[1]
            if not is_cs(b):
                return NotImplemented
            if m == "replace_all" and str_const(vals[2]) is not None:
                return cs("map", b, cs("replace", a[2][0], vals[2]))
            if m == "split":
                return cs("split", b, a[2][0])
        if k in STRINGS:
            if m == "chars":
                return cs("chars", a)
            if m in ("to_lowercase", "to_ascii_lowercase"):
                return cs("map", a, cs("lower"))
            if m in ("to_uppercase", "to_ascii_uppercase"):
                return cs("map", a, cs("upper"))
            if m == "to_snake_case" or m == "to_snek_case":
                return cs("heck", a)
            if m in ("trim", "trim_start", "trim_end") and within(a):
                return cs("trimmed", a) if m == "trim" and k != "trimmed" else a if k == "trimmed" else NotImplemented
            if m == "is_ascii":
                return cbool(True)
            if m in ("trim_matches", "trim_start_matches", "trim_end_matches") and len(vals) == 2:
                s1 = vals[1][2] if vals[1][0] == "c" and vals[1][1] == "char" else s
                if s1 == "_":
                    return cs("map", a, cs({"trim_matches": "trim", "trim_start_matches": "trimstart", "trim_end_matches": "trimend"}[m]))
            if m in ("len", "count") and a == INPUT:
                return cs("len", INPUT)
            if m in ("contains", "starts_with", "ends_with") and a == INPUT:
                return self.test({"contains": "any", "starts_with": "starts", "ends_with": "ends"}[m], eng, st, args[1], site)
            if m == "is_empty":
                return ("app", "cs:empty", (a,))
            if m == "split_whitespace":
                return cs("split", a, lit(" +"))
            if m == "replace" and len(vals) == 3:
                f, t = vals[1], str_const(vals[2])
                f = f[1] if f[0] == "c" and f[1] != "char" else None
                if vals[1][0] == "c" and vals[1][1] == "char":
                    s = vals[1][2]
                if s is not None and len(s) > 1 and t is not None and "_" not in (s[0], s[-1]):
                    return cs("map", a, cs("subst", lit(s), vals[2]))
                if s is not None and len(s) == 1 and t is not None:
                    return cs("map", a, cs("replace", lit("[" + ("\\" if s in "\\]^-[" else "") + s + "]"), vals[2]))
        if k == "chars" and a[2][0] == INPUT and m == "count":
            return cs("len", INPUT)
        if k in ("chars", "skip", "rchars") and m == "skip" and vals[1][0] == "c" and k != "rchars":
            return cs("skip", a[2][0], cint(vals[1][2] + (a[2][1][2] if k == "skip" else 0)))
        if k in ("chars", "rchars", "skip") and a[2][0] == INPUT and m in ("any", "all"):
            return self.test(m, eng, st, args[1], site, a[2][1][2] if k == "skip" else 0)
        if k == "chars" and a[2][0] == INPUT and m in ("next", "last"):
            return NotImplemented
        if k in ("chars", "rchars"):
            if m == "rev":
                return cs("chars" if k == "rchars" else "rchars", a[2][0])
            if m in ("collect", "from_iter"):
                return a[2][0] if k == "chars" else cs("rev", a[2][0])
        if m in ("extend", "push_str", "extend_from_slice") and len(vals) == 2 and args[0][0] == "ref" and str_const(vals[0]) == "" and is_cs(vals[1]):
            b = vals[1]
            b = b[2][0] if op(b) == "chars" else cs("rev", b[2][0]) if op(b) == "rchars" else b if op(b) in STRINGS else None
            if b is not None:
                eng.store(st, args[0], b)
                return UNIT
        if m == "reverse" and k in WORDS and args[0][0] == "ref":
            eng.store(st, args[0], cs("rwords", a))
            return UNIT
        if k in WORDS:
            if m in ("collect", "from_iter", "to_vec"):
                return a
            if m in ("filter", "map"):
                w = cs("word", ("sym", "w"))
                r = eng.call_value(st, args[1], [w], site)
                r = eng.deepderef(st, r)
                return cs("filter" if m == "filter" else "mapw", a, r)
            if m == "rev":
                return cs("rwords", a)
            if m in ("join", "concat"):
                if m == "concat" or s is not None:
                    return cs("join", a, vals[1] if m == "join" else lit(""))
        return NotImplemented


    def test(self, how, eng, st, f, site, skip=0):
        """a question about the characters of the name"""
        f = eng.deepderef(st, f) if f[0] == "ref" else f
        t = str_const(f)
        if t is not None and len(t) != 1:
            return cs({"any": "sub", "starts": "startslit", "ends": "endslit"}[how], INPUT, lit(t)) if t else cbool(True)
        if t is not None:
            chars = t
        elif f[0] == "c" and f[1] == "char":
            chars = f[2]
        else:
            chars = ""
            for c in sorted(WORD):
                r = eng.truth(st, eng.deepderef(st, eng.call_value(st, f, [("c", "char", c)], site)))
                if r is None:
                    return NotImplemented
                if r:
                    chars += c
        if how == "all":
            return ("app", "not", (cs("any", INPUT, lit("".join(c for c in sorted(WORD) if c not in chars)), cint(skip)),))
        if how == "any":
            return cs("any", INPUT, lit(chars), cint(skip))
        return cs(how, INPUT, lit(chars))


# ------------------------------------------------------------------ regular expressions
WORD = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
DIGIT = frozenset("0123456789")
SPACE = frozenset(" \t\n\r\x0b\x0c")
ALL = WORD | SPACE | frozenset("!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~")
LOWER, UPPER = frozenset(c for c in WORD if c.islower()), frozenset(c for c in WORD if c.isupper())


class Parser:
    """alternatives of sequences; an item is ("set", chars) | ("star"|"plus"|"opt", item) | ("alt", [[item]]) | ("look", behind, negative, [[item]]) | ("edge", negative)"""

    def __init__(self, s):
        self.s, self.i, self.x = s, 0, False
        if s.startswith("(?x)"):
            self.i, self.x = 4, True

    def peek(self):
        while self.x and self.i < len(self.s):
            if self.s[self.i] in " \t\n\r":
                self.i += 1
            elif self.s[self.i] == "#":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                break
        return self.s[self.i] if self.i < len(self.s) else None

    def alts(self):
        out = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            out.append(self.seq())
        return out

    def seq(self):
        out = []
        while self.peek() not in (None, "|", ")"):
            it = self.item()
            q = self.peek()
            while q in ("*", "+", "?"):
                self.i += 1
                it = ({"*": "star", "+": "plus", "?": "opt"}[q], it)
                q = self.peek()
                if q in ("?", "+"):
                    raise Unknown("lazy or possessive quantifier")
            if q == "{":
                import re
                m = re.match(r"\{(\d+)(,(\d*))?\}", self.s[self.i:])
                if not m:
                    raise Unknown("quantifier")
                self.i += m.end()
                lo = int(m.group(1))
                hi = lo if m.group(2) is None else None if not m.group(3) else int(m.group(3))
                if lo > 20 or (hi or 0) > 20:
                    raise Unknown("large quantifier")
                rep = [it] * lo + ([("star", it)] if hi is None else [("opt", it)] * (hi - lo))
                it = ("alt", [rep])
            out.append(it)
        return out

    def item(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            r = self.s[self.i:]
            for p, mk in (("?<=", lambda a: ("look", True, False, a)), ("?<!", lambda a: ("look", True, True, a)), ("?=", lambda a: ("look", False, False, a)), ("?!", lambda a: ("look", False, True, a)),
                          ("?:", lambda a: ("alt", a)), ("", lambda a: ("alt", a))):
                if r.startswith(p):
                    if p == "" and r.startswith("?"):
                        raise Unknown("group")
                    self.i += len(p)
                    a = self.alts()
                    if self.peek() != ")":
                        raise Unknown("parenthesis")
                    self.i += 1
                    return mk(a)
        if c == "[":
            return ("set", self.cls())
        if c == "\\":
            e = self.s[self.i]
            self.i += 1
            if e == "b" or e == "B":
                return ("edge", e == "B")
            return ("set", self.esc(e))
        if c == ".":
            return ("set", ALL - {"\n"})
        if c in "^$*+?{}":
            raise Unknown("anchor or quantifier " + c)
        return ("set", frozenset(c))

    def esc(self, e):
        t = {"w": WORD, "d": DIGIT, "s": SPACE}
        if e in t:
            return t[e]
        if e.lower() in t:
            return ALL - t[e.lower()]
        if e.isalnum():
            raise Unknown("escape \\" + e)
        return frozenset(e)

    def cls(self):
        neg = self.s[self.i] == "^"
        self.i += neg
        out = set()
        first = True
        while True:
            c = self.s[self.i]
            self.i += 1
            if c == "]" and not first:
                break
            first = False
            if c == "[":
                if self.s.startswith(":", self.i):
                    j = self.s.index(":]", self.i)
                    n = self.s[self.i + 1:j]
                    t = {"alpha": LOWER | UPPER, "digit": DIGIT, "alnum": LOWER | UPPER | DIGIT, "lower": LOWER, "upper": UPPER, "space": SPACE, "word": WORD}
                    if n not in t:
                        raise Unknown("class " + n)
                    out |= t[n]
                    self.i = j + 2
                    continue
                raise Unknown("nested class")
            if c == "&" and self.s.startswith("&", self.i):
                raise Unknown("class intersection")
            if c == "\\":
                e = self.s[self.i]
                self.i += 1
                out |= self.esc(e)
                continue
            if self.s[self.i] == "-" and self.s[self.i + 1] != "]":
                d = self.s[self.i + 1]
                self.i += 2
                out |= {x for x in ALL if c <= x <= d}
            else:
                out.add(c)
        return frozenset(ALL - out if neg else out)


def parse(s):
    p = Parser(s)
    a = p.alts()
    if p.peek() is not None:
        raise Unknown("trailing " + p.s[p.i:])
    return a


class NFA:
    """Thompson construction; reverse: for the reversed language"""

    def __init__(self, alts, reverse=False):
        self.eps, self.tr = {}, {}
        self.n = 0
        self.start, self.end = self.build(alts, reverse)

    def new(self):
        self.n += 1
        return self.n

    def build(self, alts, rev):
        s, e = self.new(), self.new()
        for seq in alts:
            cur = s
            for it in (reversed(seq) if rev else seq):
                a, b = self.one(it, rev)
                self.eps.setdefault(cur, []).append(a)
                cur = b
            self.eps.setdefault(cur, []).append(e)
        return s, e

    def one(self, it, rev):
        s, e = self.new(), self.new()
        if it[0] == "set":
            self.tr.setdefault(s, []).append((it[1], e))
        elif it[0] in ("star", "plus", "opt"):
            a, b = self.one(it[1], rev)
            self.eps.setdefault(s, []).append(a)
            self.eps.setdefault(b, []).append(e)
            if it[0] != "plus":
                self.eps.setdefault(s, []).append(e)
            if it[0] != "opt":
                self.eps.setdefault(b, []).append(a)
        elif it[0] == "alt":
            a, b = self.build(it[1], rev)
            self.eps.setdefault(s, []).append(a)
            self.eps.setdefault(b, []).append(e)
        else:
            raise Unknown("assertion inside of an assertion")
        return s, e

    def close(self, xs):
        out, todo = set(xs), list(xs)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def init(self):
        return self.close([self.start])

    def step(self, state, c):
        """the language is matched anywhere up to here: a match may start at every position"""
        return self.close([t for s in state for cs_, t in self.tr.get(s, ()) if c in cs_] + [self.start])

    def accepts(self, state):
        return self.end in state


class Gap:
    """decides from the text left and right of a gap whether a zero-width regular expression matches there"""

    def __init__(self, alts, flipped):
        self.conds, self.fwd, self.bwd = [], [], []
        for seq in alts:
            cond = []
            for it in seq:
                if it[0] == "edge":
                    cond.append(("edge", it[1]))
                elif it[0] == "look":
                    behind, neg, a = it[1], it[2], it[3]
                    left = behind != flipped
                    # text on the left is read forwards, text on the right backwards
                    n = NFA(a, reverse=flipped if left else not flipped)
                    l = self.fwd if left else self.bwd
                    l.append(n)
                    cond.append(("left" if left else "right", len(l) - 1, neg))
                else:
                    raise Unknown("the separator has a width")
            self.conds.append(cond)

    def matches(self, f, b, lc, rc):
        """f, b: states of the automata; lc, rc: the characters beside the gap (None at the ends)"""
        for cond in self.conds:
            ok_ = True
            for x in cond:
                if x[0] == "edge":
                    v = (lc is not None and lc in WORD) != (rc is not None and rc in WORD)
                    ok_ &= v != x[1]
                elif x[0] == "left":
                    ok_ &= self.fwd[x[1]].accepts(f[x[1]]) != x[2]
                else:
                    ok_ &= self.bwd[x[1]].accepts(b[x[1]]) != x[2]
            if ok_:
                return True
        return False


def char_map(ops):
    def fn(c):
        for o in ops:
            if c is None:
                return None
            if op(o) == "lower":
                c = c.lower()
            elif op(o) == "upper":
                c = c.upper()
            elif op(o) != "replace":
                raise Unknown("a change of the whole text: " + op(o))
            else:
                a = parse(str_const(o[2][0]))
                cs_ = set()
                for seq in a:
                    if len(seq) != 1 or seq[0][0] != "set":
                        raise Unknown("replacement of more than one character")
                    cs_ |= seq[0][1]
                to = str_const(o[2][1])
                if c in cs_:
                    if "$" in to or len(to) != 1:
                        raise Unknown("replacement by " + repr(to))
                    c = to
        return c
    return fn


def unfold(t):
    """(maps before the split, reversals before, regular expression, kinds of words kept, separator, maps after, reversals after)"""
    post, q = [], 0
    while is_cs(t) and op(t) in ("map", "rev"):
        if op(t) == "map":
            post.insert(0, t[2][1])
        else:
            q += 1
        t = t[2][0]
    if not is_cs(t) or op(t) != "join":
        raise Unknown("not a list of words: " + show(t)[:200])
    sep = str_const(t[2][1])
    t = t[2][0]
    keep = {"empty": True, "blank": True, "word": True}
    wmaps = []
    steps, turned = [], 0
    while is_cs(t) and op(t) in ("filter", "mapw", "rwords"):
        if op(t) == "rwords":
            turned += 1
        else:
            steps.insert(0, t)
        t = t[2][0]
    # from the inside: what the pieces have become so far
    now, spun = {k: k for k in keep}, 0
    for x in steps:
        if op(x) == "filter":
            for k in keep:
                keep[k] = keep[k] and pred(x[2][1], now[k])
            continue
        r, ms = x[2][1], []
        while is_cs(r) and op(r) in ("map", "rev", "trimmed"):
            if op(r) == "map":
                ms.insert(0, r[2][1])
            elif op(r) == "rev":
                spun += 1
            else:
                # blanks are alone in their pieces: compare() checks it
                now["blank"] = "empty"
            r = r[2][0]
        if not (is_cs(r) and op(r) == "word"):
            raise Unknown("words become " + show(x[2][1])[:200])
        wmaps += ms
    if spun % 2 != turned % 2:
        raise Unknown("words and letters are not turned around together")
    q += spun
    if spun % 2:
        sep = sep[::-1]
    if not is_cs(t) or op(t) != "split":
        raise Unknown("not split: " + show(t)[:200])
    rx = str_const(t[2][1])
    t = t[2][0]
    pre, p = [], 0
    while is_cs(t) and op(t) in ("map", "rev"):
        if op(t) == "map":
            pre.insert(0, t[2][1])
        else:
            p += 1
        t = t[2][0]
    if t != INPUT:
        raise Unknown("not the input: " + show(t)[:200])
    return pre, p, rx, keep, sep, wmaps, post, q


def pred(t, kind):
    """truth of a condition on a word"""
    if t[0] == "c":
        return bool(t[2])
    if t[0] == "app" and t[1] == "not":
        return not pred(t[2][0], kind)
    if t[0] == "app" and t[1] == "eq" and lit("") in t[2]:
        return pred(cs("empty", t[2][1] if t[2][0] == lit("") else t[2][0]), kind)
    if t[0] == "app" and t[1] == "cs:empty":
        w = t[2][0]
        while op(w) in ("map", "rev"):
            w = w[2][0]
        if op(w) == "word":
            return kind == "empty"
        if op(w) == "trimmed":
            return kind in ("empty", "blank")
    raise Unknown("condition on a word: " + show(t)[:200])


def legal_chars():
    return sorted(WORD)


PREDS = ("any", "starts", "ends", "sub", "startslit", "endslit")
LONGEST = 80


class Cond:
    """a question about the name as an automaton: any(characters, from), starts/ends(characters), sub/startslit/endslit(text),
    longer(n): more than n characters, exactly(n)"""

    def __init__(self, kind, arg, val, frm=0):
        self.kind, self.arg, self.val, self.frm = kind, arg, val, frm
        if kind in ("longer", "exactly") and arg > LONGEST:
            raise Unknown("a name of more than %d characters" % LONGEST)

    def init(self):
        return {"any": (0, False), "starts": None, "ends": False, "sub": frozenset([0]), "startslit": 0, "endslit": frozenset([0]), "longer": 0, "exactly": 0}[self.kind]

    def step(self, s, c):
        k, a = self.kind, self.arg
        if k == "any":
            n, hit = s
            return (min(n + 1, self.frm), hit or n >= self.frm and c in a)
        if k == "starts":
            return (c in a) if s is None else s
        if k == "ends":
            return c in a
        if k == "startslit":
            return s + 1 if 0 <= s < len(a) and a[s] == c else s if s == len(a) else -1
        if k in ("sub", "endslit"):
            if k == "sub" and len(a) in s:
                return s
            return frozenset([0] + [i + 1 for i in s if i < len(a) and a[i] == c])
        return min(s + 1, self.arg + 1)

    def holds(self, s):
        k, a = self.kind, self.arg
        r = s[1] if k == "any" else s == len(a) if k == "startslit" else len(a) in s if k in ("sub", "endslit") else s > a if k == "longer" else s == a if k == "exactly" else bool(s)
        return r == self.val

    def chars(self):
        return frozenset(self.arg) if isinstance(self.arg, (str, frozenset)) else frozenset()

    def tells(self, c):
        """what the question sees of a character"""
        if isinstance(self.arg, frozenset):
            return c in self.arg
        return c if isinstance(self.arg, str) and c in self.arg else None

    def __str__(self):
        a = "".join(sorted(self.arg)) if isinstance(self.arg, frozenset) else self.arg
        return "%s%s %s%s" % ("" if self.val else "not ", self.kind, a, " from %d" % self.frm if self.frm else "")


def condition(lits):
    """[(question about the name, truth)] -> [Cond]"""
    out = []
    n = cs("len", INPUT)
    for x, val in lits:
        a = b = None
        if x[0] == "app" and x[1] in ("eq", "lt"):
            a, b = x[2]
        if a is not None and n in (a, b) and (a[0] == "c" or b[0] == "c"):
            if x[1] == "eq":
                out.append(Cond("exactly", (a if b == n else b)[2], val))
            elif b == n:
                out.append(Cond("longer", a[2], val))
            else:
                out.append(Cond("longer", b[2] - 1, not val))
        elif x[1] == "eq" and a is not None:
            if b != INPUT:
                a, b = b, a
            ops, q, a = maps_of(a)
            if a != INPUT or b != INPUT or q:
                raise Unknown("condition " + show(x)[:200])
            m = char_map(ops)
            out.append(Cond("any", frozenset(c for c in WORD if m(c) != c), not val))
        elif is_cs(x) and op(x) == "empty" and x[2][0] == INPUT:
            out.append(Cond("any", WORD, not val))
        elif is_cs(x) and op(x) in PREDS and x[2][0] == INPUT:
            text = str_const(x[2][1])
            out.append(Cond(op(x), frozenset(text) if op(x) in ("any", "starts", "ends") else text, val, x[2][2][2] if op(x) == "any" else 0))
        else:
            raise Unknown("condition " + show(x)[:200])
    return out


def meets(cond, name):
    for x in cond:
        s = x.init()
        for c in name:
            s = x.step(s, c)
        if not x.holds(s):
            return False
    return True


def words(name):
    """the snake_case of a name as heck documents it"""
    out, mode, prev, pend = [], "boundary", None, False
    for i, c in enumerate(name):
        nx = name[i + 1] if i + 1 < len(name) else None
        if c == "_":
            mode, pend, prev = "boundary", True, c
            continue
        b, p = pend or prev == "_", False
        nm = "lower" if c in LOWER else "upper" if c in UPPER else mode
        if nx is None or nx == "_":
            nm2 = "boundary"
        elif nm == "lower" and nx in UPPER:
            p, nm2 = True, "boundary"
        elif mode == "upper" and c in UPPER and nx in LOWER:
            b, nm2 = True, "boundary"
        else:
            nm2 = nm
        if b and out:
            out.append("_")
        out.append(c.lower())
        mode, pend, prev = nm2, p, c
    return "".join(out)


def maps_of(t):
    """(operations, reversals, what they work on) of map(rev(map(..)))"""
    ops, q = [], 0
    while is_cs(t) and op(t) in ("map", "rev"):
        if op(t) == "map":
            ops.insert(0, t[2][1])
        else:
            q += 1
        t = t[2][0]
    return ops, q, t


class Pipe:
    """what a term does to a name: m before, split there (gap) and keep the pieces of some kinds, then w, joined by sep, o after"""

    def __init__(self, t):
        ops, q, base = maps_of(t)
        self.ltrim = self.rtrim = False
        if base == INPUT:
            for o in ops:
                if op(o) in ("trim", "trimstart"):
                    self.ltrim = True
                if op(o) in ("trim", "trimend"):
                    self.rtrim = True
            if q % 2 and self.ltrim != self.rtrim:
                raise Unknown("trimmed at one end and turned around")
            ops = [o for o in ops if not op(o).startswith("trim")]
            self.gap, self.m = Gap([], False), (lambda c: c)
            self.w, self.o, self.flip = (lambda c: c), char_map(ops), q % 2
            self.keep, self.sep, self.whole = {"empty": True, "blank": True, "word": True}, "", True
            return
        pre, p, rx, self.keep, sep, wmaps, post, q = unfold(t)
        self.gap = Gap(parse(rx), p % 2 == 1)
        self.m, self.w, self.o = char_map(pre), char_map(wmaps), char_map(post)
        self.flip, self.whole = (p + q) % 2, False
        self.sep = "".join(self.o(c) for c in sep)

    def out(self, c):
        return self.o(self.w(self.m(c)))


def heck_of(t):
    """maps before and after heck, or None"""
    post, q, base = maps_of(t)
    if not is_cs(base) or op(base) != "heck":
        return None
    pre, p, base = maps_of(base[2][0])
    if base != INPUT:
        raise Unknown("heck on " + show(base)[:200])
    return pre, p, post, q


def kind_of(c):
    return "lower" if c in LOWER else "upper" if c in UPPER else "digit" if c in DIGIT else "separator"


def text(t, name):
    """what a term makes of one name"""
    if t == INPUT:
        return name
    k = op(t)
    if k == "heck":
        return words(text(t[2][0], name))
    if k == "rev":
        return text(t[2][0], name)[::-1]
    if k == "map":
        s, o = text(t[2][0], name), t[2][1]
        if op(o) == "subst":
            return s.replace(str_const(o[2][0]), str_const(o[2][1]))
        if op(o).startswith("trim"):
            return {"trim": s.strip, "trimstart": s.lstrip, "trimend": s.rstrip}[op(o)]("_")
        m = char_map([o])
        return "".join(m(c) for c in s)
    raise Unknown("not a change of the text: " + show(t)[:100])


def sampled(t, cond):
    """a change that the automata do not cover: only a name that shows a difference decides anything"""
    texts = set()

    def walk(x):
        if is_cs(x) and op(x) == "subst":
            texts.add(str_const(x[2][0]))
        if isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(t)
    for s in sorted(texts):
        for a in ("", "a", "A", "aA", "a1", "A1", "a_"):
            for b in ("", "a", "A", "aA", "Aa", "_a"):
                for fill in (0, 10, 40):
                    n = a + s + b + "_a" * fill
                    if set(n) <= WORD and n[0] not in DIGIT and meets(cond, n) and text(t, n) != words(n):
                        return n, "%r comes out" % text(t, n)
    raise Unknown("a change of the whole text that shows on no name tried")


def heck_like(t, cond=()):
    """heck(input) with maps around it: None when they change nothing, else a name that shows it. Unknown for a change that
    only some names show."""
    pre, p, post, q = heck_of(t)
    if any(op(o) not in ("lower", "upper", "replace") for o in pre + post):
        return sampled(t, cond)
    if p % 2 or q % 2:
        return ("ab", "the name comes out backwards") if p % 2 != q % 2 else ("aB1cD", "the words of the reversed name are taken")
    m, o = char_map(pre), char_map(post)
    for c in legal_chars():
        x = m(c)
        if kind_of(x) != kind_of(c):
            return ("aBc" if kind_of(c) == "upper" else "x" + c + "Yz", "%r counts as %r before the words are told apart" % (c, x))
        if c != "_" and o(x.lower()) != c.lower():
            return ("a" + c, "%r becomes %r" % (c, o(x.lower())))
    if o("_") != "_":
        return ("a_b", "words are joined by %r" % o("_"))
    return None


def compare(t, cond=()):
    """(None or (name, what happens), number of automaton states): the pipeline against heck on every legal name that meets the condition"""
    z = Pipe(t)
    g = z.gap
    m = z.m
    # one representative of the characters that nothing tells apart
    sets = []

    def collect(n):
        for s, l in n.tr.items():
            for cs_, _ in l:
                sets.append(cs_)
    for n in g.fwd + g.bwd:
        collect(n)
    reps = {}
    for c in legal_chars():
        x = m(c)
        final = z.out(c)
        kind = (kind_of(c), x in SPACE, x in WORD, tuple(x in s for s in sets), tuple(k.tells(c) for k in cond), final == c.lower(), final == "_")
        reps.setdefault(kind, c)
    chars = sorted(reps.values())
    # states of the automata that read the right side backwards; None: the end of the name
    b0 = (tuple(n.init() for n in g.bwd), None)
    todo, back, pred_of, dist = [b0], {b0}, {}, {b0: 0}
    for b in todo:
        for c in chars:
            b2 = (tuple(n.step(s, m(c)) for n, s in zip(g.bwd, b[0])), c)
            pred_of.setdefault(b2, []).append(b)
            if b2 not in back:
                back.add(b2)
                dist[b2] = dist[b] + 1
                todo.append(b2)
    # the name is read forwards; the right side is guessed and checked by the backward automata. A state: automata of the
    # left side, last character, mode of heck, kind of the current piece, whether heck has put a boundary after the last
    # character, whether a letter came before, separators written since, condition, difference found, right side
    f0 = tuple(n.init() for n in g.fwd)
    c0 = tuple(x.init() for x in cond)
    # a column name is not empty and does not start with a digit
    starts = [(f0, None, "boundary", "none", False, False, 0, c0, None, b) for b in back if b[1] is not None and b[1] not in DIGIT]
    seen = {s: None for s in starts}
    queue = list(starts)

    def name_of(s):
        out = []
        while s is not None:
            if s[1] is not None:
                out.append(s[1])
            s = seen[s]
        return "".join(reversed(out))

    for s in queue:
        f, prev, mode, piece, pending, had, wrote, cs_, bad, b = s
        rc = b[1]
        if bad is None:
            split = g.matches(f, b[0], m(prev) if prev is not None else None, m(rc) if rc is not None else None)
            # an empty match at either end of the text splits off an empty piece too
            cur = "empty" if piece == "none" else piece
            if split and cur != "word":
                if z.keep[cur]:
                    bad = "a word without letters is kept"
            if split and cur == "word" and not z.keep["word"]:
                bad = "words are left out"
            after = "none" if split else piece
            if rc is None:
                last = "empty" if after == "none" else after
                if not z.whole and last != "word" and z.keep[last] and not (last == "empty" and prev is None and not split):
                    bad = "a word without letters is kept"
                if last == "word" and not z.keep["word"]:
                    bad = "words are left out"
                if wrote and had and not z.rtrim:
                    bad = "the name ends in a separator"
                if z.flip and had and bad is None and prev is not None:
                    bad = "the name comes out backwards"
        if rc is None:
            if bad is not None and all(x.holds(v) for x, v in zip(cond, cs_)):
                return (name_of(s), bad), len(seen)
            continue
        c, x = rc, m(rc)
        cn = tuple(x.step(v, c) for x, v in zip(cond, cs_))
        for b2 in pred_of[b]:
            nx = b2[1]
            if bad is not None:
                s2 = (f0, c, "", "", False, False, 0, cn, bad, b2)
                if s2 not in seen:
                    seen[s2] = s
                    queue.append(s2)
                continue
            why = None
            # heck
            hb, hp = pending or prev == "_", False
            if c == "_":
                hmode, hp = "boundary", True
            else:
                nm = "lower" if c in LOWER else "upper" if c in UPPER else mode
                if nx is not None and nx != "_":
                    if nm == "lower" and nx in UPPER:
                        hp, hmode = True, "boundary"
                    elif mode == "upper" and c in UPPER and nx in LOWER:
                        hb, hmode = True, "boundary"
                    else:
                        hmode = nm
                else:
                    hmode = "boundary"
            # the pipeline
            w2, p2, h2 = wrote, "word", had or c != "_"
            if z.whole:
                y = z.out(c)
                if c == "_" and y == "_":
                    w2 = min(wrote + 1, 2)
                    if not had and not z.ltrim:
                        why = "a separator at the start is kept"
                elif c == "_":
                    why = "%r becomes %r" % (c, y)
            else:
                blank = x in SPACE
                p2 = "blank" if blank else "word"
                if blank and c != "_":
                    why = "%r is left out" % c
                elif not blank and c == "_":
                    why = "%r is kept" % c
                elif after in ("blank", "word") and after != p2:
                    why = "a blank stays inside of a word"
                elif c != "_" and had and after in ("none", "blank"):
                    w2 = 1
            if c != "_" and why is None:
                if z.out(c) != c.lower():
                    why = "%r becomes %r" % (c, z.out(c))
                elif had and (w2 > 0) != hb:
                    why = "a word %s at a later %r" % ("starts" if w2 else "does not start", c)
                elif had and w2 > 1:
                    why = "words are joined by more than one separator"
                elif had and w2 and not z.whole and z.sep != "_":
                    why = "words are joined by %r" % z.sep
                w2 = 0
            f2 = tuple(nf.step(st, x) for nf, st in zip(g.fwd, f))
            s2 = (f2, c, hmode, p2, hp, h2, w2, cn, why, b2) if why is None else (f0, c, "", "", False, False, 0, cn, why, b2)
            if s2 not in seen:
                seen[s2] = s
                queue.append(s2)
    return None, len(seen)


# ------------------------------------------------------------------ the function
FN = "jst::casing::to_snake_case"


LIMIT = 64


def paths(p):
    """[(conditions on the name, term)] of to_snake_case, and the functions read"""
    out, fns, todo = [], set(), [()]
    from .spec import Kit
    while todo:
        lits = todo.pop()
        k = Kit(p)
        k.e.world = Strings()
        f = p.fn(FN)
        if f is None:
            raise Unknown("no function " + FN)
        for x, v in lits:
            k.decide(x, v)
        t = k.e.deepderef(k.st, k.e.run(f, [INPUT], k.st))
        fns |= set(k.e.fns_seen)
        new = sorted((x for x in k.e.undecided if askable(x) and x not in dict(lits)), key=repr)
        if new:
            if len(out) + len(todo) > LIMIT:
                raise Unknown("too many paths")
            todo += [lits + ((new[0], True),), lits + ((new[0], False),)]
            continue
        if k.e.unmodelled:
            raise Unknown("unmodelled: " + ", ".join(sorted(map(str, k.e.unmodelled))))
        out.append((lits, t))
    return out, fns


def askable(x):
    if is_cs(x):
        return op(x) in PREDS or op(x) == "empty" and x[2][0] == INPUT
    return x[0] == "app" and x[1] in ("eq", "lt") and (INPUT in x[2] or cs("len", INPUT) in x[2])


def judge(t, cond):
    """(None or (name, what happens), how it was decided) for one path"""
    if not any(x.kind == "any" and x.arg >= WORD and not x.frm and x.val for x in cond):
        # names are never empty
        cond = cond + [Cond("any", WORD, True)]
        if any(x.kind == "any" and x.arg >= WORD and not x.val and not x.frm for x in cond):
            return None, "no name comes here"
    if t == cs("heck", INPUT):
        return None, "heck's snake_case of the whole name"
    if heck_of(t):
        bad = heck_like(t, cond)
        if bad and not meets(cond, bad[0]):
            raise Unknown("a change around heck under a condition")
        return bad, "heck's snake_case with a change of characters that it does not see"
    bad, n = compare(t, cond)
    return bad, "%d states of the product of both automata, from the regular expression and the pipeline" % n


def proven(p):
    """to_snake_case is heck's on every column name: the other analyses then read a call of it as one of heck"""
    if not hasattr(p, "_snake"):
        from .engine import Limit
        p._snake = False
        try:
            ps, _ = paths(p)
            p._snake = all(judge(t, condition(lits))[0] is None for lits, t in ps)
        except (Unknown, Diverge, RecursionError, AttributeError, IndexError, KeyError, TypeError, ValueError, Limit):
            pass
    return p._snake


LEGAL = frozenset("_dlu")


def legal(v):
    """an abstract string that is a column name"""
    from . import absstr
    if v[0] == "phi":
        return all(legal(x) for x in v[1])
    if v[0] != "str" or not v[1]:
        return False
    for s in v[1]:
        if s[0] == "lit":
            if not set(s[1]) <= WORD:
                return False
        elif s[0] != "ch" or not s[2] <= LEGAL:
            return False
    f = absstr.first_classes(v[1][0], 0)
    return f is not None and "d" not in f
