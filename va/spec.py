"""Building abstract inputs, comparing abstract results."""
from .values import *
from .engine import Engine, State, Scenario, FrozenCallee
from . import models

# jst::ast
TAG, TYPE = "jst::ast::Tag", "jst::ast::Type"
NULL, ATOM, OBJECT, MAP, ARRAY, TUPLE, UNION = range(7)
KINDS = ["null", "atom", "object", "map", "array", "tuple", "union"]
A_BOOL, A_INT, A_NUM, A_STR, A_DT, A_JSON, A_BYTES = range(7)
ATOMS = ["boolean", "integer", "number", "string", "datetime", "json", "bytes"]
IN = "jst::ast::Tag::infer_name"
NUL = "jst::ast::Tag::infer_nullability"
TC = "jst::ast::Tag::collapse"
UC = "jst::ast::Union::collapse"
NP = "jst::ast::Tag::normalize_properties"
DT, NAME, NS, NULLABLE, ROOT, DESC, TITLE = range(7)


class Missing(Exception):
    """a function or type the case is about does not exist (any more)"""


class Sc(Scenario):
    """facts of one case: a table of decided terms, plus sets of mutually distinct strings"""

    def __init__(self):
        self.facts = {}
        self.distinct = []
        self.rules = []
        self.icepts = []
        self.projs = []
        self.log = []

    def decide(self, eng, st, t):
        if t in self.facts:
            return self.facts[t]
        if t[0] == "app" and t[1] == "eq":
            a, b = t[2]
            for g in self.distinct:
                if a in g and b in g:
                    return a == b
        for r in self.rules:
            x = r(eng, st, t)
            if x is not None:
                return x
        return None

    def intercept(self, eng, st, f, args, site):
        for h in self.icepts:
            r = h(eng, st, f, args, site)
            if r is not None:
                return r
        return None

    def proj(self, eng, base, step):
        for h in self.projs:
            r = h(eng, base, step)
            if r is not None:
                return r
        return None

    def call(self, eng, st, f, args, site):
        """what is resolved stays as it is (the cells of stage tc: resolving changes nothing but unions)"""
        if f["path"] == TC and len(args) == 1 and not eng.expecting:
            v = eng.eta(eng.deepderef(st, args[0]))
            n = 0
            while v[0] == "proj":
                v, n = v[1], n + 1
            uc = eng.p.fn(UC)
            if n and v[0] == "app" and v[1] in (f["id"] + ":0", uc["id"] if uc else None):
                return UNIT
        return None

    def nocut(self, eng, st, f, args):
        """a union of one alternative is followed: it is that alternative, resolved"""
        if f["path"] == UC:
            u = eng.deref(st, args[0])
            if u[0] == "adt" and u[3][0][0] == "seq":
                ss = flat(u[3][0][1])
                return len(ss) == 1 and ss[0][0] == "1"
        if f["path"] == TC:
            # a node without children is looked into
            return leaf(eng, st, args[0])
        return False

    def forcecut(self, eng, st, f, args):
        """a union of several parts of the input is not followed, even if something is known about them"""
        if f["path"] == UC:
            u = eng.deref(st, args[0])
            if u[0] == "adt" and u[3][0][0] == "seq":
                ss = flat(u[3][0][1])
                return len(ss) > 1 and all(is_term(eng.deref(st, seg_val(s))) for s in ss)
        return False

    def canon(self, eng, st, f, vals):
        """resolving alternatives of a union beforehand, or grouping them, makes no difference"""
        if f["path"] == UC and vals and vals[0][0] == "adt" and vals[0][3][0][0] == "seq":
            tc = eng.p.fn(TC)
            name = tc["id"] + ":0" if tc else None

            def strip(x):
                while True:
                    if x[0] == "app" and x[1] == name:
                        x = x[2][0]
                        continue
                    if x[0] == "adt" and x[1] == TAG and x[3][DT][0] == "proj" and x[3][DT][2] == ("f", None, DT):
                        b = x[3][DT][1]
                        if b[0] == "app" and b[1] in (name, f["id"]):
                            n, m = x[3][NULLABLE], eng.mkproj(b, ("f", None, NULLABLE))
                            t = eng.truth(st, m)
                            if n == m or (t is not None and eng.truth(st, n) == t):
                                x = b
                                continue
                    return x
            def strip_all(x):
                if x[0] == "phi":
                    ys = {strip(y) for y in x[1]}
                    return ys.pop() if len(ys) == 1 else x
                return strip(x)
            segs = []
            for s in flat(vals[0][3][0][1]):
                s = map_seg(s, strip_all)
                v = seg_val(s)
                if s[0] == "1" and v[0] == "app" and v[1] == f["id"] and v[2][0][0] == "adt" and v[2][0][3][0][0] == "seq":
                    segs += list(v[2][0][3][0][1])
                else:
                    segs.append(s)
            u = vals[0]
            # what a union resolves to does not depend on the order of its alternatives (C08 and C09: the tables are
            # symmetric, merging is by name, "nothing required" and JSON absorb)
            segs.sort(key=lambda s: (show(seg_val(s)), repr(s)))
            return [("adt", u[1], u[2], (("seq", tuple(segs)),))] + list(vals[1:])
        return vals


def leaf(eng, st, a):
    t = eng.deref(st, a)
    if t[0] == "adt" and t[1] == TAG:
        t = t[3][DT]
    elif is_term(t):
        t = eng.mkproj(t, ("f", None, DT))
    else:
        return False
    if t[0] == "adt":
        return t[2] in (NULL, ATOM)
    return is_term(t) and eng.decide(st, t) in (NULL, ATOM)


class Kit:
    """builders for the abstract inputs of one case"""

    def __init__(self, prog):
        self.p = prog
        self.sc = Sc()
        self.e = Engine(prog, self.sc)
        self.st = State()
        self.nin = 0
        self.partial = []
        self.inst = None   # lists of any length: analysed as they are, or with this many elements
        models.NONEMPTY.clear()

    # ---- functions
    def fn(self, path):
        f = self.p.fn(path)
        if f is None:
            raise Missing(path)
        return f

    def ty(self, s):
        i = self.p.find_ty(s)
        if i is None:
            raise Missing(s)
        return i

    def anchor(self, *paths):
        for x in paths:
            f = self.p.fn(x) if isinstance(x, str) else x
            if f is not None:
                self.e.anchors.add(f["id"])

    # ---- values
    def sym(self, name, ty=None):
        return self.e.sym(name, ty)

    def tag_sym(self, name):
        return self.e.sym(name, TAG)

    def fld(self, t, i, variant=None):
        if t[0] == "adt":
            return t[3][i]
        return self.e.mkproj(t, ("f", variant, i))

    def tag(self, sym, dt, **kw):
        """an explicit node; fields not given stay symbolic"""
        t = self.tag_sym(sym)
        fs = [self.fld(t, i) for i in range(7)]
        fs[DT] = dt
        for k, v in kw.items():
            i = {"name": NAME, "ns": NS, "nullable": NULLABLE, "root": ROOT, "desc": DESC, "title": TITLE}[k]
            fs[i] = cbool(v) if isinstance(v, bool) else v
        return ("adt", TAG, 0, tuple(fs))

    def null(self):
        return ("adt", TYPE, NULL, ())

    def atom(self, a):
        return ("adt", TYPE, ATOM, (("adt", "jst::ast::Atom", a, ()),))

    def struct(self, path, sym=None, **kw):
        """an explicit struct by field names; fields not given stay symbolic"""
        t = self.e.adt_info(path)
        if t is None:
            raise Missing(path)
        s = self.sym(sym or path, path)
        fs = []
        names = [f["name"] for f in t["variants"][0]["fields"]]
        for n in kw:
            if n not in names:
                raise Missing(path + "." + n)
        for i, n in enumerate(names):
            v = kw.get(n)
            fs.append(self.fld(s, i) if v is None else cbool(v) if isinstance(v, bool) else self.fit(path, i, v))
        return ("adt", path, 0, tuple(fs))

    def fit(self, path, i, v):
        """a map or set in the kind of collection that field i of the struct is declared with"""
        if not isinstance(v, tuple):
            return v
        if v[0] == "adt" and v[1] == OPT and v[2] == 1:
            return some(self.fit(path, i, v[3][0]))
        if v[0] not in ("map", "set"):
            return v
        t = self.e.adt_info(path)
        fs = t["variants"][0]["fields"] if t else ()
        ty = fs[i].get("ty") if i < len(fs) else None
        s = (self.p.types[ty] or {}).get("s", "") if ty is not None else ""
        if "BTreeMap<" in s or "BTreeSet<" in s:
            return (v[0], "btree", v[2])
        if "HashMap<" in s or "HashSet<" in s:
            return (v[0], "hash", v[2])
        return v

    def variant(self, path, name, *fs):
        t = self.e.adt_info(path)
        if t is None:
            raise Missing(path)
        for i, v in enumerate(t["variants"]):
            if v["name"] == name:
                if len(v["fields"]) != len(fs):
                    raise Missing(path + "::" + name)
                return ("adt", path, i, tuple(fs))
        raise Missing(path + "::" + name)

    def get(self, v, field):
        """a field by name of an explicit or symbolic struct"""
        if v[0] != "adt":
            v = self.e.materialize(v)
        t = self.e.adt_info(v[1])
        for i, f in enumerate(t["variants"][v[2]]["fields"]):
            if f["name"] == field:
                return v[3][i]
        raise Missing(v[1] + "." + field)

    def _st(self, variant, path, *fs):
        return ("adt", TYPE, variant, (("adt", path, 0, tuple(self.fit(path, i, v) for i, v in enumerate(fs))),))

    def obj(self, entries, required):
        """entries: (key, value, mult)"""
        return self._st(OBJECT, "jst::ast::Object", self.hmap(entries), required)

    def hmap(self, entries):
        return ("map", "hash", tuple((k, v, m, ("sym", "src:" + show(k))) for k, v, m in entries))

    def hset(self, entries):
        return ("set", "hash", tuple((k, UNIT, m, ("sym", "src:" + show(k))) for k, m in entries))

    def map_(self, key, value):
        return self._st(MAP, "jst::ast::Map", key, value)

    def arr(self, items):
        return self._st(ARRAY, "jst::ast::Array", items)

    def seq(self, segs):
        """segs: (value, mult)"""
        return ("seq", tuple(x for v, m in segs for x in self.segs(v, m)))

    def segs(self, v, m, src=True):
        """one element, or any number of elements, of a list"""
        if m in ("1", "?"):
            return ((m, v),)
        if self.inst is not None:
            return (("1", v),) * max(self.inst, m == "+")
        return ((m, ("sym", "src:" + show(v)) if src else None, v, True),)

    def tup(self, segs):
        return self._st(TUPLE, "jst::ast::Tuple", self.seq(segs))

    def union(self, segs):
        return self._st(UNION, "jst::ast::Union", self.seq(segs))

    def key(self, name):
        return self.e.sym(name, "alloc::string::String")

    def keys(self, *names):
        ks = [self.key(n) for n in names]
        self.sc.distinct.append(set(ks))
        return ks

    def mut(self, v):
        self.nin += 1
        c = ("in", self.nin)
        self.st.cells[c] = v
        return ("ref", c, ())

    def decide(self, term, val):
        self.sc.facts[term] = val

    # ---- running
    def call(self, f, *args):
        if isinstance(f, str):
            f = self.fn(f)
        self.e.root_log.append((f["id"], tuple(self.e.deepderef(self.st, a) for a in args), dict(self.sc.facts)))
        before = dict(self.e.events)
        r = self.e.run(f, list(args), self.st)
        # a result, but not on every path
        for (kind, fid, what), n in self.e.events.items():
            if kind in ("panic", "abort") and before.get((kind, fid, what), 0) < n:
                self.partial.append((f["id"], fid, what))
        return r

    def after(self, ref):
        return self.e.deepderef(self.st, ref)

    def expect(self, f, *args):
        """what f yields on (opaque) args: (result, [values behind &mut args])"""
        if isinstance(f, str):
            f = self.fn(f)
        st = self.st.copy()
        args2 = []
        for i, (a, l) in enumerate(zip(args, f["body"]["locals"][1:])):
            t = self.p.types[l["ty"]]
            if t["k"] == "ref" and t.get("mut"):
                c = ("exp", i)
                st.cells[c] = a
                a = ("ref", c, ())
            args2.append(a)
        self.e.expecting = True
        try:
            r = self.e.single(st, self.e.call({"name": f["id"], "inst": f["id"]}, args2, st, "expect", None))
        finally:
            self.e.expecting = False
        return self.e.deepderef(st, r), [self.e.deepderef(st, a) for a in args2]

    def expect_mut(self, f, *args):
        return self.expect(f, *args)[1][0]


# ------------------------------------------------------------------------------------------ comparison
class Diff:
    def __init__(self, path, got, want):
        self.path, self.got, self.want = path, got, want

    def __repr__(self):
        return "%s: got %s, expected %s" % ("/".join(map(str, self.path)) or "value", show(self.got)[:300], show(self.want)[:300])


class Any_:
    """matches anything"""
    def __repr__(self):
        return "anything"


ANY = ("any",)
FIELD_NAMES = {TAG: ["type", "name", "namespace", "nullable", "is_root", "description", "title"],
               "jst::ast::Object": ["fields", "required"], "jst::ast::Map": ["key", "value"], "jst::ast::Array": ["items"],
               "jst::ast::Tuple": ["items"], "jst::ast::Union": ["items"]}


def fname(eng, path, variant, i):
    t = eng.adt_info(path)
    if t is not None:
        fs = t["variants"][variant if t["adt"] == "enum" else 0]["fields"]
        if i < len(fs):
            return fs[i].get("name", str(i))
    return str(i)


def diff(k, got, want, path=(), out=None, depth=0):
    """list of Diff between an abstract result and the expected abstract value"""
    eng, st = k.e, k.st
    if out is None:
        out = []
    if want == ANY or got == want:
        return out
    if depth > 60:
        out.append(Diff(path, got, want))
        return out
    if callable(want):
        r = want(k, got)
        if r is not True:
            out.append(Diff(path, got, r if isinstance(r, tuple) else ("app", str(r), ())))
        return out
    got = resolve(got)
    if want[0] == "sorted":
        # ("sorted", elements, names): the elements in the order of their names
        if is_term(got):
            got = eng.as_seq(got) or got
        if got[0] != "seq":
            out.append(Diff(path, got, want))
            return out
        g = list(got[1])
        if len(want[1]) > 1 or any(x[0] in "+*" for x in want[1]):
            if len(g) == 1 and g[0][0] == "bag" and isinstance(g[0][2], tuple) and g[0][2][0] == "sorted":
                if any(x[0] == "top" for x in g[0][2][1]):
                    out.append(Diff(path + ("order",), ("top", "sort key"), ("app", "by name", ())))
                elif set(want[2]) <= set(g[0][2][1]):
                    # sorted together with others that are no longer there
                    pass
                elif sorted(map(repr, g[0][2][1])) != sorted(map(repr, want[2])):
                    out.append(Diff(path + ("order",), ("app", "sorted by", tuple(g[0][2][1])), ("app", "sorted by", tuple(want[2]))))
            elif all(x[0] == "1" for x in g) and all(models.lit_text(x) is not None for x in want[2]) and all(x[0] == "1" for x in want[1]):
                # names known entirely: the elements in this order
                idx = sorted(range(len(want[2])), key=lambda i: models.lit_text(want[2][i]).encode())
                return diff(k, ("seq", tuple(g)), ("seq", tuple(want[1][i] for i in idx)), path + ("order",), out, depth + 1)
            elif not (len(g) == 1 and g[0][0] == "bag" and g[0][2] == "btree"):
                out.append(Diff(path + ("order",), ("app", "not sorted" if has_bag(g) else "order", (got,)), ("app", "sorted by", tuple(want[2]))))
        return diff(k, ("seq", tuple(flat(g))), ("mset", ("seq", want[1])[1]), path, out, depth + 1)
    if want[0] == "mset":
        if is_term(got):
            got = eng.as_seq(got) or got
        a = list(flat(got[1])) if got[0] == "seq" else None
        if a is None:
            out.append(Diff(path, got, want))
            return out
        if has_bag(got[1]):
            out.append(Diff(path + ("order",), ("app", "hash order", (got,)), ("app", "fixed order", ())))
        lacking = []
        for y in flat(want[1]):
            hit = [x for x in a if x[0] == y[0] and not diff(k, seg_val(x), seg_val(y), (), [], depth + 1)]
            if not hit:
                lacking.append(y)
            else:
                a.remove(hit[0])
        for y in lacking:
            # the element that differs least from the one expected
            near = []
            for i, x in enumerate(a):
                if x[0] == y[0] and seg_val(x)[0] == "adt" == seg_val(y)[0]:
                    ds = diff(k, seg_val(x), seg_val(y), path + ("element",), [], depth + 1)
                    if len(ds) < len(seg_val(y)[3]) and all(len(d.path) > len(path) + 1 for d in ds):
                        near.append((len(ds), i, x, ds))
            if near:
                _, _, x, ds = min(near, key=lambda n: n[:2])
                a.remove(x)
                out += ds
            else:
                out.append(Diff(path + ("missing",), got, ("seq", (y,))))
        for x in a:
            out.append(Diff(path + ("extra",), ("seq", (x,)), ("app", "absent", ())))
        return out
    if got[0] == "ref":
        got = eng.deepderef(st, got)
    if got == want:
        return out
    if want[0] == "oneof":
        best = None
        for w in want[1]:
            d = diff(k, got, w, path, [], depth + 1)
            if not d:
                return out
            best = d if best is None or len(d) < len(best) else best
        out.append(Diff(path, got, want[1][0]))
        return out
    if got[0] == "phi" or want[0] == "phi":
        ga, wa = list(phi_alts(got)), list(phi_alts(want))
        if all(any(not diff(k, g, w, path, [], depth + 1) for w in wa) for g in ga) and \
           all(any(not diff(k, g, w, path, [], depth + 1) for g in ga) for w in wa):
            return out
        out.append(Diff(path, got, want))
        return out
    # booleans
    if want[0] == "c" and want[1] == "bool" or got[0] == "c" and got[1] == "bool":
        a, b = eng.truth(st, got), eng.truth(st, want)
        if a is None or b is None or a != b:
            out.append(Diff(path, got, want))
        return out
    if want[0] == "adt" and is_term(got):
        m = eng.materialize(got, want[2])
        t = eng.ptype(got)
        if m is not None and m[1] == want[1] and (t["adt"] != "enum" or eng.decide(st, got) == want[2]):
            got = m
        else:
            out.append(Diff(path, got, want))
            return out
    elif got[0] == "adt" and is_term(want):
        m = eng.materialize(want, got[2])
        t = eng.ptype(want)
        if m is not None and m[1] == got[1] and (t["adt"] != "enum" or eng.decide(st, want) == got[2]):
            want = m
        else:
            out.append(Diff(path, got, want))
            return out
    if got[0] != want[0]:
        if want[0] in ("map", "set") and is_term(got):
            got = eng.as_map(got) or got
        elif got[0] in ("map", "set") and is_term(want):
            want = eng.as_map(want) or want
        elif want[0] == "seq" and is_term(got):
            got = eng.as_seq(got) or got
        elif got[0] == "seq" and is_term(want):
            want = eng.as_seq(want) or want
    if got == want:
        return out
    if is_term(got) and is_term(want):
        # two opaque values of an enum whose variants are decided
        tg, tw = eng.ptype(got), eng.ptype(want)
        if tg is not None and tw is not None and tg["k"] == tw["k"] == "adt" and tg["adt"] == tw["adt"] == "enum" and tg["path"] == tw["path"]:
            vg, vw = eng.decide(st, got), eng.decide(st, want)
            if vg is not None and vg == vw:
                a, b = eng.materialize(got, vg), eng.materialize(want, vw)
                if a is not None and b is not None and a[0] == b[0] == "adt" and not any(diff(k, x, y, path, [], depth + 1) for x, y in zip(a[3], b[3])):
                    return out
    if got[0] != want[0]:
        out.append(Diff(path, got, want))
        return out
    t = want[0]
    if t == "adt":
        if got[1] != want[1] or got[2] != want[2] or len(got[3]) != len(want[3]):
            out.append(Diff(path, got, want))
            return out
        for i, (a, b) in enumerate(zip(got[3], want[3])):
            diff(k, a, b, path + (fname(eng, want[1], want[2], i),), out, depth + 1)
        return out
    if t == "tup" and len(got[1]) == len(want[1]):
        for i, (a, b) in enumerate(zip(got[1], want[1])):
            diff(k, a, b, path + (i,), out, depth + 1)
        return out
    if t == "app" and got[1] == want[1] and len(got[2]) == len(want[2]):
        for i, (a, b) in enumerate(zip(got[2], want[2])):
            if isinstance(a, tuple) and isinstance(b, tuple):
                diff(k, a, b, path + ("%s arg %d" % (want[1].split("::")[-1], i),), out, depth + 1)
            elif a != b:
                out.append(Diff(path, got, want))
        return out
    if t == "proj" and got[2] == want[2]:
        return diff(k, got[1], want[1], path, out, depth + 1)
    if t == "seq":
        a, b = flat(got[1]), flat(want[1])
        a = [s for s in a]
        if len(a) != len(b):
            out.append(Diff(path, got, want))
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            if x[0] != y[0]:
                out.append(Diff(path + ("[%d]" % i,), ("seq", (x,)), ("seq", (y,))))
                continue
            if x[0] in ("+", "*") and y[3] is True and x[3] is not True:
                out.append(Diff(path + ("[%d] complete" % i,), ("seq", (x,)), ("seq", (y,))))
            diff(k, seg_val(x), seg_val(y), path + ("[%d]" % i,), out, depth + 1)
        return out
    if t in ("map", "set"):
        ea = list(got[2])
        for w in want[2]:
            hit = None
            for g in ea:
                if not diff(k, g[0], w[0], (), [], depth + 1):
                    hit = g
                    break
            if hit is None:
                out.append(Diff(path + (show(w[0]),), ("app", "absent", ()), w[1]))
                continue
            ea.remove(hit)
            if hit[2] != w[2]:
                out.append(Diff(path + (show(w[0]), "presence"), ("app", hit[2], ()), ("app", w[2], ())))
            if t == "map":
                diff(k, hit[1], w[1], path + (show(w[0]),), out, depth + 1)
        for g in ea:
            if g[2] != "0":
                out.append(Diff(path + (show(g[0]),), g[1], ("app", "absent", ())))
        return out
    out.append(Diff(path, got, want))
    return out
