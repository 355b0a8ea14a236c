"""Strings over character classes.

A string segment ("ch", sym, classes, mult) stands for one ("1") or any number ("*", "+") of
characters, each of one of the classes.  A class is a set of characters with the same behaviour under
every predicate and regular expression the analysis interprets (checked: representatives decide)."""
import re

# class -> representatives; every operation interpreted below must agree on all of them
CLASSES = {
    "l": "abmz",            # ASCII lower case
    "u": "ABMZ",            # ASCII upper case
    "d": "0159",            # ASCII digit
    "_": "_",
    ".": ".",
    "-": "-",
    "s": "$ /@:[`{!~",      # other ASCII
    "n": "\u00b2\u0663",    # non-ASCII numeric
    "a": "\u00e9\u00d1\u4e2d",    # non-ASCII letters
    "x": "\u20ac\u2028",    # other non-ASCII
}
ALL = frozenset(CLASSES)
SINGLE = {"_": "_", ".": ".", "-": "-"}


def class_of(c):
    if c in "_.-":
        return c
    o = ord(c)
    if o < 128:
        if c.islower():
            return "l"
        if c.isupper():
            return "u"
        if c.isdigit():
            return "d"
        return "s"
    if c.isnumeric():
        return "n"
    if c.isalpha():
        return "a"
    return "x"


PREDS = {
    "is_numeric": lambda c: c.isnumeric(),
    "is_alphabetic": lambda c: c.isalpha(),
    "is_alphanumeric": lambda c: c.isalpha() or c.isnumeric(),
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_alphabetic": lambda c: ord(c) < 128 and c.isalpha(),
    "is_ascii_alphanumeric": lambda c: ord(c) < 128 and c.isalnum(),
    "is_ascii_lowercase": lambda c: ord(c) < 128 and c.islower(),
    "is_ascii_uppercase": lambda c: ord(c) < 128 and c.isupper(),
    "is_ascii": lambda c: ord(c) < 128,
    "is_ascii_punctuation": None,
    "is_ascii_whitespace": None,
    "is_whitespace": None,
    "is_lowercase": lambda c: c.islower(),
    "is_uppercase": lambda c: c.isupper(),
    "is_control": None,
}


# characters of the input that occur once ({name: once}), the classes that the current case distinction gives
# them, and those on which the analysis had to branch
ONCE, CHOSEN, OPEN = {}, {}, {}


def classes_of(v):
    """classes of an abstract character under the current case distinction"""
    n, m = origin(v[1][1])
    c = CHOSEN.get(n) if CHOSEN and ONCE.get(n) else None
    c = class_of(m[c]) if c in m else c
    return frozenset([c]) if c is not None and c in v[1][2] else v[1][2]


def origin(sym):
    """(character of the input, replacements) of a character's name"""
    if isinstance(sym, str):
        return sym, {}
    if isinstance(sym, tuple) and sym and sym[0] == "chmap" and isinstance(sym[1], str):
        return sym[1], dict(sym[2])
    return None, {}


def note(v):
    """the class of v matters"""
    if v[0] == "char" and len(v[1][2]) > 1:
        n, m = origin(v[1][1])
        if ONCE.get(n) and n not in CHOSEN:
            OPEN[n] = tuple(sorted(c for c in ALL if (class_of(m[c]) if c in m else c) in v[1][2]))


def pred_on_class(name, cl):
    f = PREDS.get(name)
    if name == "is_digit":
        f = PREDS["is_ascii_digit"]
    if f is None:
        return None
    rs = {bool(f(c)) for c in CLASSES[cl]}
    return rs.pop() if len(rs) == 1 else None


def char_classes(v):
    """set of classes of an abstract character, or None"""
    if v[0] == "c" and v[1] == "char":
        return frozenset([class_of(v[2])])
    if v[0] == "char":
        return classes_of(v)
    return None


def char_pred(v, name):
    """True / False / None"""
    if v[0] == "c" and v[1] == "char":
        f = PREDS.get("is_ascii_digit" if name == "is_digit" else name)
        return bool(f(v[2])) if f else None
    if v[0] == "char":
        rs = {pred_on_class(name, cl) for cl in classes_of(v)}
        if len(rs) > 1:
            note(v)
        return rs.pop() if len(rs) == 1 else None
    return None


def char_is(eng, st, v, ch):
    """is the abstract character v equal to ch"""
    if v[0] == "c":
        return v[2] == ch
    if v[0] == "char":
        cl = class_of(ch)
        if cl not in classes_of(v):
            return False
        if classes_of(v) == frozenset([cl]) and cl in SINGLE:
            return True
        note(v)
        return None
    return None


def char_range(v, lo, hi):
    """lo <= v <= hi for constant bounds"""
    if v[0] == "c" and v[1] == "char":
        return lo <= v[2] <= hi
    if v[0] == "char":
        rs = set()
        for cl in classes_of(v):
            r = {lo <= c <= hi for c in CLASSES[cl]}
            rs.add(r.pop() if len(r) == 1 else None)
        if len(rs) > 1:
            note(v)
        return rs.pop() if len(rs) == 1 else None
    return None


def seg_classes(s):
    return s[2]


def str_eq(a, b):
    """equality of two abstract strings: True / False / None"""
    if a == b:
        return True
    sa = a[1] if a[0] == "str" else (("t", a),)
    sb = b[1] if b[0] == "str" else (("t", b),)
    ca = all(s[0] == "lit" for s in sa)
    cb = all(s[0] == "lit" for s in sb)
    if ca and cb:
        return sa == sb
    sa, sb = list(sa), list(sb)
    # strip common ends
    for end in (0, -1):
        while sa and sb:
            x, y = sa[end], sb[end]
            if x == y and not (x[0] == "ch" and x[3] != "1"):
                sa.pop(end)
                sb.pop(end)
                continue
            if x[0] == "lit" and y[0] == "lit":
                n = 0
                m = min(len(x[1]), len(y[1]))
                if end == 0:
                    while n < m and x[1][n] == y[1][n]:
                        n += 1
                    rx, ry = x[1][n:], y[1][n:]
                else:
                    while n < m and x[1][-1 - n] == y[1][-1 - n]:
                        n += 1
                    rx, ry = x[1][:len(x[1]) - n], y[1][:len(y[1]) - n]
                if rx and ry:
                    return False
                for l, r in ((sa, rx), (sb, ry)):
                    if r:
                        l[end] = ("lit", r)
                    else:
                        l.pop(end)
                continue
            fx, fy = first_classes(x, end), first_classes(y, end)
            if fx is not None and fy is not None and not (fx & fy):
                return False
            break
    if not sa and not sb:
        return True
    if not sa or not sb:
        rest = sa or sb
        if any(s[0] == "lit" or (s[0] == "ch" and s[3] != "*") for s in rest):
            return False
        return None
    return None


def first_classes(s, end):
    if s[0] == "lit":
        return frozenset([class_of(s[1][0 if end == 0 else -1])])
    if s[0] == "ch" and s[3] in ("1", "+"):
        return s[2]
    return None


# ---------------------------------------------------------------- regular expressions
class Unsupported(Exception):
    pass


def parse_regex(p):
    """NFA of the whole-match language of an unanchored search, with anchors as epsilon conditions"""
    pos = 0
    flags_ok = True

    class B:
        def __init__(self):
            self.n = 0
            self.eps = {}
            self.tr = []        # (from, set predicate, to)
            self.cond = []      # (from, "start"|"end", to)

        def new(self):
            self.n += 1
            return self.n - 1
    b = B()

    def eps(x, y):
        b.eps.setdefault(x, []).append(y)

    def alt():
        nonlocal pos
        s, e = b.new(), b.new()
        while True:
            x, y = seq()
            eps(s, x)
            eps(y, e)
            if pos < len(p) and p[pos] == "|":
                pos += 1
                continue
            return s, e

    def seq():
        nonlocal pos
        s = b.new()
        cur = s
        while pos < len(p) and p[pos] not in "|)":
            x, y = rep()
            eps(cur, x)
            cur = y
        return s, cur

    def rep():
        nonlocal pos
        x, y = atom()
        while pos < len(p) and p[pos] in "*+?{":
            c = p[pos]
            if c == "{":
                raise Unsupported("counted repetition")
            pos += 1
            if pos < len(p) and p[pos] == "?":
                pos += 1
            s, e = b.new(), b.new()
            eps(s, x)
            eps(y, e)
            if c in "*?":
                eps(s, e)
            if c in "*+":
                eps(y, x)
            x, y = s, e
        return x, y

    def esc_class(c):
        if c == "d":
            return lambda ch: ch.isnumeric() and (ch.isdecimal())
        if c == "w":
            return lambda ch: ch.isalnum() or ch == "_"
        if c == "s":
            return lambda ch: ch.isspace()
        return None

    def atom():
        nonlocal pos
        c = p[pos]
        s, e = b.new(), b.new()
        if c == "(":
            pos += 1
            if p[pos:pos + 2] == "?:":
                pos += 2
            elif p[pos:pos + 1] == "?":
                raise Unsupported("group flags")
            x, y = alt()
            if pos >= len(p) or p[pos] != ")":
                raise Unsupported("unbalanced group")
            pos += 1
            eps(s, x)
            eps(y, e)
            return s, e
        if c == "[":
            pos += 1
            neg = False
            if p[pos] == "^":
                neg = True
                pos += 1
            items = []
            first = True
            while p[pos] != "]" or first:
                first = False
                ch = p[pos]
                if ch == "\\":
                    pos += 1
                    f = esc_class(p[pos])
                    if f is not None:
                        items.append(f)
                        pos += 1
                        continue
                    if p[pos].isalnum():
                        raise Unsupported("class escape")
                    ch = p[pos]
                elif ch == "[":
                    raise Unsupported("nested class")
                pos += 1
                if p[pos] == "-" and p[pos + 1] != "]":
                    hi = p[pos + 1]
                    if hi == "\\":
                        raise Unsupported("class escape")
                    pos += 2
                    items.append(lambda x, lo=ch, hi=hi: lo <= x <= hi)
                else:
                    items.append(lambda x, c=ch: x == c)
            pos += 1
            b.tr.append((s, (lambda x: not any(f(x) for f in items)) if neg else (lambda x: any(f(x) for f in items)), e))
            return s, e
        pos += 1
        if c == "^":
            b.cond.append((s, "start", e))
        elif c == "$":
            b.cond.append((s, "end", e))
        elif c == ".":
            b.tr.append((s, lambda x: x != "\n", e))
        elif c == "\\":
            k = p[pos]
            pos += 1
            if k == "A":
                b.cond.append((s, "start", e))
            elif k == "z":
                b.cond.append((s, "end", e))
            elif esc_class(k):
                b.tr.append((s, esc_class(k), e))
            elif k in "DWSbBpPxuQn":
                raise Unsupported("escape \\" + k)
            else:
                b.tr.append((s, lambda x, k=k: x == k, e))
        else:
            b.tr.append((s, lambda x: x == c, e))
        return s, e
    s, e = alt()
    if pos != len(p):
        raise Unsupported("trailing input")
    return b, s, e


def nfa_step(b, states, pred):
    return {t for f, cs, t in b.tr if f in states and pred(cs)}


def closure(b, states, at_start, at_end):
    st, todo = set(states), list(states)
    while todo:
        x = todo.pop()
        for y in b.eps.get(x, ()):
            if y not in st:
                st.add(y)
                todo.append(y)
        for f, c, y in b.cond:
            if f == x and y not in st and ((c == "start" and at_start) or (c == "end" and at_end)):
                st.add(y)
                todo.append(y)
    return st


def regex_match(pattern, v):
    """does an unanchored search of pattern succeed on the abstract string v: True / False / None"""
    try:
        b, s, e = parse_regex(pattern)
    except (Unsupported, IndexError):
        return None
    segs = v[1] if v[0] == "str" else (("t", v),)
    if any(x[0] not in ("lit", "ch") for x in segs):
        return None
    # subset simulation: a set of possible configurations (NFA state set, at_start, matched)
    def start(states, at_start):
        return frozenset(closure(b, set(states) | {s}, at_start, False))
    conf = {(frozenset(closure(b, {s}, True, False)), True)}

    def step(conf, chars):
        out = set()
        for sts, _ in conf:
            if sts == "MATCH":
                out.add(("MATCH", False))
                continue
            if e in sts:
                out.add(("MATCH", False))
                continue
            for c in chars:
                nx = {t for f, cs, t in b.tr if f in sts and cs(c)}
                out.add((start(nx, False), False))
        return out
    for x in segs:
        if x[0] == "lit":
            for c in x[1]:
                conf = step(conf, [c])
        else:
            chars = [c for cl in sorted(x[2]) for c in CLASSES[cl]]
            if x[3] == "1":
                conf = step(conf, chars)
            else:
                acc = set(conf) if x[3] == "*" else set()
                cur = conf
                for _ in range(200):
                    cur = step(cur, chars)
                    if cur <= acc:
                        break
                    acc |= cur
                else:
                    return None
                conf = acc
    rs = set()
    for sts, at_start in conf:
        if sts == "MATCH":
            rs.add(True)
        else:
            rs.add(e in closure(b, sts, at_start, True))
    return rs.pop() if len(rs) == 1 else None


# ---------------------------------------------------------------- per-character transformations
def map_seg_chars(s, f):
    """applies f: class -> replacement text or None (= unchanged) to a "ch" segment.
    Returns segments, or None when the replacement is not one character per character"""
    rep = {}
    for cl in s[2]:
        r = f(cl)
        if r is not None:
            if len(r) != 1:
                return None
            rep[cl] = r
    if not rep:
        return (s,)
    if len(s[2]) == 1 and s[3] == "1":
        return (("lit", next(iter(rep.values()))),)
    classes = frozenset(class_of(rep[c]) if c in rep else c for c in s[2])
    sym = s[1]
    if isinstance(sym, tuple) and sym and sym[0] == "chmap":
        old = dict(sym[2])
        sym0 = sym[1]
    else:
        old, sym0 = {}, sym
    new = dict(old)
    for k, v in old.items():
        if class_of(v) in rep:
            new[k] = rep[class_of(v)]
    for k, v in rep.items():
        if k not in old:
            new[k] = v
    new = {k: v for k, v in new.items()}
    return (("ch", ("chmap", sym0, tuple(sorted(new.items()))), classes, s[3]),)
