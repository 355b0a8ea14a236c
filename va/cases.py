"""Decision tables: one case per cell of the input partition of each stage of the conversion."""
from .spec import *
from . import absstr

CASES = []


class Case:
    prog = "lib"

    def __init__(self, stage, name, fn):
        self.stage, self.name, self.fn = stage, name, fn


def case(stage, name):
    def d(f):
        CASES.append(Case(stage, name, f))
        return f
    return d


def upd(tag, **kw):
    fs = list(tag[3])
    for k, v in kw.items():
        i = {"dt": DT, "name": NAME, "ns": NS, "nullable": NULLABLE, "root": ROOT, "desc": DESC, "title": TITLE}[k]
        fs[i] = cbool(v) if isinstance(v, bool) else v
    return ("adt", TAG, 0, tuple(fs))


def mat(k, t):
    return t if t[0] == "adt" else k.e.materialize(t)


# recursive functions whose results the tables speak of
RECURSIVE = ("jst::jsonschema::Tag::type_into_ast", "jst::ast::Tag::recurse_infer_name", "<jst::avro::Type as jst::traits::TranslateFrom<jst::ast::Tag>>::translate_from",
             "<jst::bigquery::Tag as jst::traits::TranslateFrom<jst::ast::Tag>>::translate_from")


# ------------------------------------------------------------------------------------------ nullability
def nul_case(kind, force, mk):
    def run(k):
        k.anchor(NUL)
        F = cbool(force)
        dt, want_dt = mk(k, F)
        T = k.tag("T", dt)
        r = k.mut(T)
        k.call(NUL, r, F)
        got = k.after(r)
        nullable = TRUE if force or kind == "null" else T[3][NULLABLE]
        want = upd(T, nullable=nullable, dt=want_dt)
        return diff(k, got, want)
    return run


def rec(k, c, F):
    return mat(k, k.expect_mut(NUL, c, F))


def n_null(k, F):
    return k.null(), k.null()


def n_atom(k, F):
    a = k.sym("atom", "jst::ast::Atom")
    d = ("adt", TYPE, ATOM, (a,))
    return d, d


def n_obj(mode, mixed):
    def mk(k, F):
        K1, K2, K3 = k.keys("req", "opt", "other")
        V1, V2 = k.tag_sym("v1"), k.tag_sym("v2")
        req = {"none": NONE, "some": some(k.hset([(K1, "+"), (K3, "+")])), "empty": some(k.hset([]))}[mode]
        outs = []
        for K, V, b in ((K1, V1, mixed & 1), (K2, V2, mixed & 2)):
            c = rec(k, V, F)
            k.decide(c[3][NULLABLE], bool(b))
            isreq = mode == "some" and K == K1
            outs.append((K, upd(c, nullable=bool(F[2] or b or not isreq)), "+"))
        return k.obj([(K1, V1, "+"), (K2, V2, "+")], req), k.obj(outs, req)
    return mk


def n_map(k, F):
    c, v = k.tag_sym("key"), k.tag_sym("value")
    return k.map_(c, v), k.map_(c, rec(k, v, F))


def n_arr(k, F):
    v = k.tag_sym("items")
    return k.arr(v), k.arr(rec(k, v, F))


def n_tup(k, F):
    a, v, z = k.tag_sym("first"), k.tag_sym("mid"), k.tag_sym("last")
    return k.tup([(a, "1"), (v, "+"), (z, "1")]), k.tup([(rec(k, a, F), "1"), (rec(k, v, F), "+"), (rec(k, z, F), "1")])


for _force in (False, True):
    _s = "force" if _force else "plain"
    for _n, _k, _m in [("null", "null", n_null), ("atom", "atom", n_atom), ("map", "map", n_map), ("array", "array", n_arr), ("tuple", "tuple", n_tup)] + \
            [("object required=%s nullable=%d" % (q, b), "object", n_obj(q, b)) for q in ("none", "some", "empty") for b in range(4)]:
        CASES.append(Case("nul", "%s, %s" % (_n, _s), nul_case(_k, _force, _m)))


# ------------------------------------------------------------------------------------------ union elimination
def widen(kinds):
    """narrowest scalar that holds every member"""
    s = set(kinds)
    if len(s) == 1:
        return next(iter(s))
    if s <= {A_INT, A_NUM}:
        return A_NUM
    return A_JSON


def not_root(k, got):
    """a resolved union may become a child: no root"""
    return FALSE if got == TRUE else True


def uc_want(k, dt, nullable):
    return ("adt", TAG, 0, (dt, ANY, ANY, nullable if isinstance(nullable, tuple) else cbool(nullable), not_root, ANY, ANY))


def uc_run(k, segs, want_dt, nullable):
    k.anchor(NUL, TC, UC)
    u = ("adt", "jst::ast::Union", 0, (k.seq(segs),))
    got = k.e.deepderef(k.st, k.call(UC, u))
    return diff(k, got, uc_want(k, want_dt, nullable))


def a_item(k, name, a, nullable=False):
    return k.tag(name, k.atom(a), nullable=nullable)


def null_item(k, name="null"):
    return k.tag(name, k.null(), nullable=True)


def nested(k, name, dt, nullable):
    """a union of which the induction hypothesis says that it resolves to dt"""
    u = k.e.sym(name, "jst::ast::Union")
    r = k.expect(UC, u)[0]
    k.e.anchors |= set()
    t = k.fld(r, DT)
    k.decide(t, dt[2])
    if dt[2] == ATOM:
        k.decide(k.e.mkproj(t, ("f", ATOM, 0)), dt[3][0][2])
    k.decide(k.fld(r, NULLABLE), nullable)
    return k.tag(name + "_t", ("adt", TYPE, UNION, (u,)), nullable=False)


def uc_atoms(first, second, third, nul, nest):
    def run(k):
        k.anchor(NUL, TC, UC)
        nn = nul == "flag"
        alla = [a_item(k, "any%d" % i, i) for i in range(7)]
        A = a_item(k, "a", first)
        segs = [(A, "1"), (a_item(k, "a2", first), "*")]
        kinds = [first]
        if second is not None:
            kinds.append(second)
            b = nested(k, "nest", k.atom(second), nn) if nest else a_item(k, "b", second, nn)
            segs += [(b, "1"), (mkphi([a_item(k, "p", first), a_item(k, "q", second)]), "*")]
        elif nn:
            segs[0] = (a_item(k, "a", first, True), "1")
        if third is not None:
            kinds.append(third)
            segs += [(a_item(k, "c", third), "1"), (mkphi(alla), "*")]
        if nul == "first":
            segs = [(null_item(k), "+")] + segs
        elif nul == "mid":
            segs = segs[:1] + [(null_item(k), "1")] + segs[1:]
        elif nul == "last":
            segs = segs + [(null_item(k), "1")]
        return uc_run(k, segs, k.atom(widen(kinds)), bool(nul))
    return run


for _a in range(7):
    for _n in ("", "flag", "first", "mid", "last"):
        CASES.append(Case("uc", "atoms %s... %s" % (ATOMS[_a], _n and "null:" + _n), uc_atoms(_a, None, None, _n, False)))
    for _b in range(7):
        if _b != _a:
            for _n in ("", "flag", "first", "mid", "last"):
                for _nest in (False, True):
                    CASES.append(Case("uc", "atoms %s, %s%s... %s" % (ATOMS[_a], ATOMS[_b], " nested" if _nest else "", _n and "null:" + _n), uc_atoms(_a, _b, None, _n, _nest)))
            for _c in range(7):
                if _c not in (_a, _b):
                    CASES.append(Case("uc", "atoms %s, %s, %s..." % (ATOMS[_a], ATOMS[_b], ATOMS[_c]), uc_atoms(_a, _b, _c, "", False)))
        else:
            CASES.append(Case("uc", "atoms %s, %s nested" % (ATOMS[_a], ATOMS[_b]), uc_atoms(_a, _b, None, "", True)))


@case("uc", "empty union is rejected")
def _(k):
    try:
        r = uc_run(k, [], ANY, ANY)
    except Diverge:
        return []
    return [Diff(("empty union",), ("app", "resolved", ()), ("app", "abort", ()))]


@case("uc", "only nulls")
def _(k):
    return uc_run(k, [(null_item(k), "1"), (null_item(k, "n2"), "+")], k.null(), True)


@case("uc", "one null")
def _(k):
    return uc_run(k, [(null_item(k), "1")], k.null(), True)


def is_kind(k, tagterm, kind, atom=None):
    """decides the kind of an opaque node"""
    t = k.fld(tagterm, DT)
    k.decide(t, kind)
    if atom is not None:
        k.decide(k.e.mkproj(t, ("f", ATOM, 0)), atom)


def tc(k, v):
    return k.expect_mut(TC, v)


def nul(k, v, F=FALSE):
    return mat(k, k.expect_mut(NUL, v, F))


def uc(k, *vs):
    return k.expect(UC, ("adt", "jst::ast::Union", 0, (k.seq([(v, "1") for v in vs]),)))[0]


# one alternative only: it is resolved, nothing else happens to it
def uc_single(kind, mk):
    def run(k):
        k.anchor(NUL, TC, UC)
        dt, want = mk(k)
        for n in (False, True):
            d = uc_run(k, [(k.tag("x", dt, nullable=n), "1")], want, n)
            if d:
                return d
        return []
    return run


def s_obj(k):
    K1, K2 = k.keys("k1", "k2")
    v1, v2, R = k.tag_sym("v1"), k.tag_sym("v2"), k.sym("R", "core::option::Option<std::collections::HashSet<alloc::string::String>>")
    return k.obj([(K1, v1, "+"), (K2, v2, "+")], NONE), k.obj([(K1, child_ok(k, v1), "+"), (K2, child_ok(k, v2), "+")], NONE)


def child_ok(k, v):
    """the resolved child; running nullability inference again does no harm as long as it only adds"""
    t = tc(k, v)
    return ("oneof", (t, only_weaker(k, t)))


def only_weaker(k, t):
    def chk(k2, got):
        n = k.e.materialize(nul(k, t)) if nul(k, t)[0] != "adt" else nul(k, t)
        g = got if got[0] == "adt" else k.e.materialize(got)
        if g is None:
            return "resolved child"
        d = diff(k, g[3][DT], n[3][DT])
        return True if not d else "resolved child"
    return chk


def s_map(k):
    a, v = k.tag_sym("key"), k.tag_sym("value")
    return k.map_(a, v), k.map_(ANY, child_ok(k, v))


def s_arr(k):
    v = k.tag_sym("items")
    return k.arr(v), k.arr(child_ok(k, v))


def s_tup(k):
    v, w = k.tag_sym("v"), k.tag_sym("w")
    return k.tup([(v, "1"), (w, "+")]), k.tup([(child_ok(k, v), "1"), (child_ok(k, w), "+")])


for _n, _m in (("object", s_obj), ("map", s_map), ("array", s_arr), ("tuple", s_tup)):
    CASES.append(Case("uc", "single " + _n, uc_single(_n, _m)))


@case("uc", "single nested union")
def _(k):
    k.anchor(NUL, TC, UC)
    out = []
    for n in (False, True):
        u = k.e.sym("u%d" % n, "jst::ast::Union")
        r = k.expect(UC, u)[0]
        k.decide(k.fld(r, NULLABLE), n)
        is_kind(k, r, OBJECT)
        out += uc_run(k, [(k.tag("x", ("adt", TYPE, UNION, (u,)), nullable=False), "1")], k.fld(r, DT), n)
    return out


# objects: generic fields, one per combination of (declared by member i, required by member i)
def resolved_default(k, kind=ATOM, atom=A_BOOL):
    """what the induction hypothesis says about resolved children unless decided otherwise"""
    names = {k.fn(TC)["id"] + ":0", k.fn(UC)["id"]}

    def rule(eng, st, t):
        if t[0] == "proj" and t[1][0] == "app" and t[1][1] in names and t[2][0] == "f":
            if t[2][2] == DT:
                return kind
            if t[2][2] == NULLABLE:
                return False
        if t[0] == "proj" and t[2] == ("f", ATOM, 0) and t[1][0] == "proj" and t[1][2][2] == DT and t[1][1][0] == "app" and t[1][1][1] in names:
            return atom
        return None
    k.sc.rules.append(rule)


def of_kind(k, kind, isnull):
    """a field of the given kind: what is inside of it is the subject of the other cells"""
    def chk(k2, got):
        g = got if got[0] == "adt" else k.e.materialize(got)
        if g is None:
            return ("app", "a field", ())
        dt, nl = g[3][DT], g[3][NULLABLE]
        for _ in range(3):
            if dt[0] == "proj" and dt[1][0] == "app" and dt[1][1] == k.fn(NUL)["id"] + ":0" and dt[1][2][0][0] == "adt":
                nl = nl if nl[0] == "int" or nl != k.e.mkproj(dt[1], ("f", None, NULLABLE)) else dt[1][2][0][3][NULLABLE]
                dt = dt[1][2][0][3][DT]
        if dt[0] != "adt":
            dt = k.e.materialize(dt) or dt
        if dt[0] != "adt" or dt[2] != kind:
            return ("app", "a field of kind %d" % kind, ())
        if isnull and nl != TRUE:
            return ("app", "a nullable field", ())
        return True
    return chk


def merge_case(n, modes, nulls, conflict=None, nullable=None, first_null=False, only=None, kind=ATOM, kids=None):
    """n objects; modes[i]: member i has a required list; conflict: the class of fields that does not merge;
    only: the classes of fields (by the members that declare them) there are; kind: what the fields resolve to"""
    def run(k):
        k.anchor(NUL, TC, UC)
        resolved_default(k, kind)
        import itertools
        classes = [c for c in itertools.product("01", repeat=2 * n)]
        names = []
        for c in classes:
            decl, req = c[:n], c[n:]
            if any(r == "1" and not m for r, m in zip(req, modes)):
                continue
            if "1" not in decl and "1" not in req:
                continue
            if only is not None and "1" in decl and "".join(decl) not in only:
                continue
            names.append(("".join(decl), "".join(req)))
        if n > 2:
            names = [x for x in names if x[1] in ("1" * n, "0" * n, "0" + "1" * (n - 1), "1" * (n - 1) + "0") and "1" in x[0]]
        keys = dict(zip(names, k.keys(*["k_%s_%s" % x for x in names])))
        val = {}
        for nm in names:
            for i in range(n):
                if nm[0][i] == "1":
                    val[nm, i] = k.tag_sym("v%d_%s_%s" % (i, nm[0], nm[1]))
        items = []
        for i in range(n):
            fields = [(keys[x], val[x, i], "+") for x in names if x[0][i] == "1"]
            req = some(k.hset([(keys[x], "+") for x in names if x[1][i] == "1"])) if modes[i] else NONE
            items.append((k.tag("o%d" % i, k.obj(fields, req), nullable=(nullable == i)), "1"))
        if first_null:
            items.insert(0, (null_item(k), "1"))
        want = []
        bad = False
        for x in names:
            if "1" not in x[0]:
                continue
            vs = [val[x, i] for i in range(n) if x[0][i] == "1"]
            r = uc(k, *vs)
            if kids and len(vs) == len(kids):
                for v, a in zip(vs, kids):
                    k.decide(k.fld(tc(k, v), DT), a)
                    k.decide(k.fld(tc(k, v), NULLABLE), a == NULL)
                k.decide(k.fld(r, NULLABLE), True)
            if conflict == x[0]:
                k.decide(k.e.mkproj(k.fld(r, DT), ("f", ATOM, 0)) if r[0] != "adt" else k.e.mkproj(r[3][DT], ("f", ATOM, 0)), A_JSON)
                bad = True
                for v, a in zip(vs, (A_BOOL, A_STR, A_INT)) if len(vs) > 1 else ((vs[0], A_JSON),):
                    k.decide(k.e.mkproj(k.fld(tc(k, v), DT), ("f", ATOM, 0)), a)
            if x[0] in nulls:
                k.decide(k.fld(tc(k, vs[0]), NULLABLE), True)
                for m in range(2, len(vs) + 1):
                    for sub in itertools.combinations(vs[1:], m - 1):
                        k.decide(k.fld(uc(k, vs[0], *sub), NULLABLE), True)
            isnull = x[0] in nulls or x[1] != "1" * n or kind == NULL or bool(kids and len(vs) == len(kids))
            r = mat(k, r)
            if kind not in (ATOM, NULL):
                want.append((keys[x], of_kind(k, kind, isnull), "+"))
                continue
            want.append((keys[x], ("adt", TAG, 0, (r[3][DT], ANY, ANY, cbool(isnull), ANY, ANY, ANY)), "+"))
        if bad:
            wdt = k.atom(A_JSON)
        else:
            both = [(keys[x], "+") for x in names if x[1] == "1" * n]
            if all(modes):
                req = some(k.hset(both))
                if not both:
                    req = ("oneof", (req, NONE))
            else:
                req = ("oneof", (NONE, some(k.hset([]))))
            wdt = k.obj(want, req)
        return uc_run(k, items, wdt, nullable is not None or first_null)
    return run


for _modes in ((0, 0), (1, 0), (0, 1), (1, 1)):
    CASES.append(Case("uc", "objects 2 required=%d%d" % _modes, merge_case(2, _modes, ())))
    CASES.append(Case("uc", "objects 2 required=%d%d nullable fields" % _modes, merge_case(2, _modes, ("11", "10", "01"))))
for _cl in ("11", "10", "01"):
    CASES.append(Case("uc", "objects 2 conflict in " + _cl, merge_case(2, (1, 1), (), conflict=_cl)))
    if len(_cl.strip("0")) == 2:
        CASES.append(Case("uc", "objects 2 nullable conflict in " + _cl, merge_case(2, (1, 1), (_cl,), conflict=_cl)))
        CASES.append(Case("uc", "objects 2 nullable conflict in %s, no required" % _cl, merge_case(2, (0, 0), (_cl,), conflict=_cl)))
for _kd, _kn in ((NULL, "null"), (OBJECT, "object"), (MAP, "map"), (ARRAY, "array"), (TUPLE, "tuple")):
    for _modes in ((0, 0), (1, 1)):
        CASES.append(Case("uc", "objects 2 required=%d%d %s fields" % (_modes + (_kn,)), merge_case(2, _modes, (), kind=_kd)))
    if _kd == NULL:
        CASES.append(Case("uc", "objects 3 null fields", merge_case(3, (1, 1, 1), (), kind=_kd)))
for _n in (4, 5, 9):
    for _only in (("1" * _n,), ("1" + "0" * (_n - 1),), ("0" * (_n - 1) + "1",)):
        CASES.append(Case("uc", "objects %d fields in %s" % (_n, _only[0]), merge_case(_n, (1,) * _n, (), only=_only)))
for _modes in ((1, 1), (0, 0), (1, 0)):
    CASES.append(Case("uc", "objects 2 required=%d%d fields null, atom" % _modes, merge_case(2, _modes, (), kids=(NULL, ATOM))))
    CASES.append(Case("uc", "objects 2 required=%d%d fields atom, null" % _modes, merge_case(2, _modes, (), kids=(ATOM, NULL))))
CASES.append(Case("uc", "objects 2 first nullable", merge_case(2, (0, 0), (), nullable=0)))
CASES.append(Case("uc", "objects 2 second nullable", merge_case(2, (0, 0), (), nullable=1)))
CASES.append(Case("uc", "null and objects 2", merge_case(2, (1, 1), (), first_null=True)))
CASES.append(Case("uc", "null and object", merge_case(1, (1,), (), first_null=True)))
CASES.append(Case("uc", "null and object without required", merge_case(1, (0,), ("1",), first_null=True)))
for _only in ((), ("10",), ("01",), ("11",), ("10", "01")):
    for _modes in ((0, 0), (1, 0), (0, 1), (1, 1)):
        CASES.append(Case("uc", "objects 2 required=%d%d fields in %s" % (_modes + (" ".join(_only) or "none",)), merge_case(2, _modes, (), only=_only)))
for _only in (("100",), ("010",), ("001",), ("110",), ("011",), ("101",), ("100", "010", "001"), ("111", "001")):
    CASES.append(Case("uc", "objects 3 fields in %s" % " ".join(_only), merge_case(3, (1, 1, 1), (), only=_only)))
    CASES.append(Case("uc", "objects 3 without required, fields in %s" % " ".join(_only), merge_case(3, (0, 0, 0), (), only=_only)))
for _modes in ((1, 1, 1), (1, 1, 0), (0, 1, 1)):
    CASES.append(Case("uc", "objects 3 required=%d%d%d" % _modes, merge_case(3, _modes, ())))
CASES.append(Case("uc", "objects 3 conflict", merge_case(3, (1, 1, 1), (), conflict="111")))
CASES.append(Case("uc", "objects 3 conflict first two", merge_case(3, (1, 1, 1), (), conflict="110")))
CASES.append(Case("uc", "objects 3 last nullable", merge_case(3, (1, 1, 1), ("001",), nullable=2)))


# maps and arrays
def coll_case(kind, n, nullable, first_null, kids=(), rk=ATOM):
    """kids: what the members' parts resolve to; rk: what their union resolves to (a scalar unless given)"""
    def run(k):
        k.anchor(NUL, TC, UC)
        resolved_default(k)
        vs, items = [], []
        for i in range(n):
            v = k.tag_sym("v%d" % i)
            vs.append(v)
            dt = k.map_(k.tag_sym("key%d" % i), v) if kind == "map" else k.arr(v)
            items.append((k.tag("x%d" % i, dt, nullable=(nullable == i)), "1"))
        if first_null:
            items.insert(0, (null_item(k), "1"))
        r = uc(k, *vs)
        for v, a in zip(vs, kids):
            k.decide(k.fld(tc(k, v), DT), a)
            k.decide(k.fld(tc(k, v), NULLABLE), a == NULL)
        if kids:
            k.decide(k.fld(r, DT), rk)
            k.decide(k.fld(r, NULLABLE), NULL in kids)
        r = mat(k, r)
        c = ("adt", TAG, 0, (r[3][DT], ANY, ANY, r[3][NULLABLE], ANY, ANY, ANY))
        if rk != ATOM:
            # nullability inference may run over it again
            k.st.cells[("cell", "again")] = r
            k.call(NUL, ("ref", ("cell", "again"), ()), FALSE)
            r2 = k.e.deepderef(k.st, k.st.cells[("cell", "again")])
            c = ("oneof", (c, ("adt", TAG, 0, (r2[3][DT], ANY, ANY, ANY, ANY, ANY, ANY))))
        if kind == "map":
            key = ("adt", TAG, 0, (k.atom(A_STR), ANY, ANY, FALSE, ANY, ANY, ANY))
            return uc_run(k, items, k.map_(key, c), nullable is not None or first_null)
        return uc_run(k, items, k.arr(c), nullable is not None or first_null)
    return run


for _kd in ("map", "array"):
    for _nn in (None, 0, 1):
        CASES.append(Case("uc", "%ss 2 nullable=%s" % (_kd, _nn), coll_case(_kd, 2, _nn, False)))
    for _kn, _ks, _rk in (("null and atom", (NULL, ATOM), ATOM), ("atom and null", (ATOM, NULL), ATOM), ("null", (NULL, NULL), NULL), ("map", (MAP, MAP), MAP), ("array", (ARRAY, ARRAY), ARRAY),
                          ("object", (OBJECT, OBJECT), OBJECT), ("map and array", (MAP, ARRAY), ATOM), ("object and map", (OBJECT, MAP), ATOM), ("null and map", (NULL, MAP), MAP), ("array and null", (ARRAY, NULL), ARRAY),
                          ("tuple and object", (TUPLE, OBJECT), ATOM), ("atom and object", (ATOM, OBJECT), ATOM), ("array and atom", (ARRAY, ATOM), ATOM)):
        CASES.append(Case("uc", "%ss 2 of %s" % (_kd, _kn), coll_case(_kd, 2, None, False, _ks, _rk)))
    CASES.append(Case("uc", "%ss 3" % _kd, coll_case(_kd, 3, None, False)))
    CASES.append(Case("uc", "%ss 3 null" % _kd, coll_case(_kd, 3, None, True)))
    CASES.append(Case("uc", "%s and null" % _kd, coll_case(_kd, 1, None, True)))


@case("uc", "objects any number, without fields")
def _(k):
    o = lambda n: k.tag(n, k.obj([], NONE), nullable=False)
    return uc_run(k, [(o("o1"), "1"), (o("o2"), "1"), (o("os"), "+")], k.obj([], NONE), False)


def many_case(kind, null):
    def run(k):
        k.anchor(NUL, TC, UC)
        resolved_default(k)
        vs, items = [], []
        for i, m in enumerate("11+"):
            v = k.tag_sym("v%d" % i)
            vs.append((v, m))
            dt = k.map_(k.tag_sym("key%d" % i), v) if kind == "map" else k.arr(v)
            items.append((k.tag("x%d" % i, dt, nullable=False), m))
        if null:
            items.insert(1, (null_item(k), "1"))
        r = mat(k, k.expect(UC, ("adt", "jst::ast::Union", 0, (k.seq(vs),)))[0])
        c = ("adt", TAG, 0, (r[3][DT], ANY, ANY, r[3][NULLABLE], ANY, ANY, ANY))
        key = ("adt", TAG, 0, (k.atom(A_STR), ANY, ANY, FALSE, ANY, ANY, ANY))
        return uc_run(k, items, k.map_(key, c) if kind == "map" else k.arr(c), null)
    return run


for _kd in ("map", "array"):
    for _nn in (False, True):
        CASES.append(Case("uc", "%ss any number%s" % (_kd, " and null" if _nn else ""), many_case(_kd, _nn)))


# mixtures
def any_dt(k, n, i):
    if n == "atom":
        return k.atom(A_STR)
    if n == "object":
        return k.obj([(k.key("k%d" % i), k.tag_sym("f%d" % i), "+")], NONE)
    if n == "map":
        return k.map_(k.tag_sym("mk%d" % i), k.tag_sym("mv%d" % i))
    if n == "array":
        return k.arr(k.tag_sym("a%d" % i))
    return k.tup([(k.tag_sym("t%d" % i), "1"), (k.tag_sym("u%d" % i), "+")])


def mixed_case(ns, null):
    def run(k):
        k.anchor(NUL, TC, UC)
        resolved_default(k)
        items = [(k.tag("x%d" % i, any_dt(k, n, i), nullable=(null == "flag" and i == 1)), "1") for i, n in enumerate(ns)]
        if null == "null":
            items.append((null_item(k), "1"))
        return uc_run(k, items, k.atom(A_JSON), bool(null))
    return run


for _x in ("atom", "object", "map", "array", "tuple"):
    for _y in ("atom", "object", "map", "array", "tuple"):
        if _x != _y:
            for _nn in ("", "null", "flag"):
                CASES.append(Case("uc", "mixed %s, %s %s" % (_x, _y, _nn), mixed_case([_x, _y], _nn)))
            CASES.append(Case("uc", "mixed %s, %s, %s" % (_x, _x, _y), mixed_case([_x, _x, _y], "")))
            CASES.append(Case("uc", "mixed %s, %s, %s" % (_y, _x, _x), mixed_case([_y, _x, _x], "")))


# ------------------------------------------------------------------------------------------ union elimination below a node
def tc_case(kind, mk):
    def run(k):
        k.anchor(NUL, TC, UC)
        dt, want = mk(k)
        out = []
        for n, m in ((False, True), (True, True), (False, False), (True, False)):
            T = k.tag("T", dt, nullable=n, **({} if m is None else {x: some(k.sym("T." + x)) if m else NONE for x in ("desc", "title")}))
            r = k.mut(T)
            k.call(TC, r)
            w = want(T, n) if callable(want) else upd(T, dt=want)
            out += diff(k, k.after(r), w)
        return out
    return run


def t_null(k):
    return k.null(), k.null()


def t_atom(k):
    a = ("adt", TYPE, ATOM, (k.sym("atom", "jst::ast::Atom"),))
    return a, a


def t_obj(k):
    K1, K2 = k.keys("k1", "k2")
    v1, v2 = k.tag_sym("v1"), k.tag_sym("v2")
    req = some(k.hset([(K1, "+")]))
    return k.obj([(K1, v1, "+"), (K2, v2, "1")], req), k.obj([(K1, tc(k, v1), "+"), (K2, tc(k, v2), "1")], req)


def t_map(k):
    a, v = k.tag_sym("key"), k.tag_sym("value")
    return k.map_(a, v), k.map_(("oneof", (a, tc(k, a))), tc(k, v))


def t_arr(k):
    v = k.tag_sym("items")
    return k.arr(v), k.arr(tc(k, v))


def t_tup(k):
    v, w, z = k.tag_sym("v"), k.tag_sym("w"), k.tag_sym("z")
    return k.tup([(v, "1"), (w, "+"), (z, "1")]), k.tup([(tc(k, v), "1"), (tc(k, w), "+"), (tc(k, z), "1")])


def uc_meta(p):
    """what the code puts into the name, title, ... of a resolved union, where it is the same constant for every kind of union"""
    def shapes(k):
        a, b = k.sym("a", "jst::ast::Atom"), k.sym("b", "jst::ast::Atom")
        o = lambda n: k.obj([(k.keys("k" + n)[0], k.tag_sym("v" + n), "1")], k.sym("req" + n, None) if False else NONE)
        at = lambda n, x: k.tag(n, ("adt", TYPE, ATOM, (x,)))
        yield [(at("t", a), "1")]
        yield [(k.tag("t", k.null()), "1")]
        yield [(k.tag("t", k.null()), "1"), (k.tag("w", k.null()), "1")]
        yield [(at("t", a), "1"), (at("w", b), "1")]
        yield [(k.tag("t", k.null()), "1"), (at("w", b), "1")]
        yield [(k.tag("t", o("1")), "1"), (k.tag("w", o("2")), "1")]
        yield [(k.tag("t", k.map_(k.tag_sym("y"), k.tag_sym("v"))), "1"), (k.tag("w", k.map_(k.tag_sym("z"), k.tag_sym("x"))), "1")]
        yield [(k.tag("t", k.arr(k.tag_sym("v"))), "1"), (k.tag("w", k.arr(k.tag_sym("x"))), "1")]
        yield [(k.tag("t", k.arr(k.tag_sym("v"))), "1"), (at("w", b), "1")]
    got = {}
    n = 0
    while True:
        k = Kit(p)
        k.anchor(NUL, TC, UC)
        s = next((x for i, x in enumerate(shapes(k)) if i == n), None)
        if s is None:
            return {i: v for i, v in got.items() if v in (NONE, FALSE)}
        n += 1
        try:
            r = k.e.deepderef(k.st, k.call(UC, ("adt", "jst::ast::Union", 0, (k.seq(s),))))
        except (Limit, Diverge, Missing):
            return {}
        if r[0] != "adt" or r[1] != TAG:
            return {}
        for i in (NAME, NS, ROOT, DESC, TITLE):
            got[i] = r[3][i] if n == 1 or got[i] == r[3][i] else None


def t_union(b):
    def mk(k):
        u = k.e.sym("u", "jst::ast::Union")
        r = k.expect(UC, u)[0]
        k.decide(k.fld(r, NULLABLE), b)
        meta = uc_meta(k.p)
        res = ("adt", TAG, 0, tuple(meta.get(i, k.fld(r, i)) for i in range(7)))
        k.sc.known = lambda eng, st, f, args: res if f["path"] == UC and eng.deepderef(st, args[0]) == u else None
        dt = ("adt", TYPE, UNION, (u,))
        return dt, lambda T, n: upd(T, dt=k.fld(r, DT), nullable=bool(n or b))
    return mk


for _n, _m in (("null", t_null), ("atom", t_atom), ("object", t_obj), ("map", t_map), ("array", t_arr), ("tuple", t_tup),
               ("union", t_union(False)), ("nullable union", t_union(True))):
    CASES.append(Case("tc", _n, tc_case(_n, _m)))


# ------------------------------------------------------------------------------------------ property names
CHARS = [chr(i) for i in range(0, 128)] + ["\u00b2", "\u0663", "\u00e9", "\u00d1", "\u4e2d", "\u20ac", "\u2028", "\u00a0", "\uff10", "\U0001f600"]
LETTER = frozenset("lu_")
LEGAL = frozenset("lud_")


def cch(name, classes, mult):
    absstr.ONCE[name] = absstr.ONCE.get(name, True) and mult == "1"
    return ("ch", name, frozenset(classes), mult)


def legal_name(segs):
    """(replaced, with prefix) or None: the column name of a property name given as string segments"""
    out = []
    for s in segs:
        if s[0] == "lit":
            t = s[1].replace(".", "_").replace("-", "_")
            if any(not (ord(c) < 128 and (c.isalnum() or c == "_")) for c in t):
                return None
            out.append(("lit", t))
        else:
            if s[2] - LEGAL - {".", "-"}:
                return None
            out += absstr.map_seg_chars(s, lambda c: "_" if c in ".-" else None)
    v = mkstr(out)
    ss = segs_of(v)
    if not ss:
        return None
    f = ss[0]
    digit = f[1][0].isdigit() if f[0] == "lit" else f[2] == {"d"}
    if not digit and f[0] == "ch" and "d" in f[2]:
        raise ValueError("first character undecided")
    return v, concat(lit("_"), v) if digit else v


SNAKES = {
    "letter": (("ch", "sn1", frozenset("l"), "1"), ("ch", "sn2", frozenset("ld_"), "*")),
    "digit": (("ch", "sn1", frozenset("d"), "1"), ("ch", "sn2", frozenset("ld_"), "*")),
    "empty": (),
}


def np_case(segs, snake, req, many=False):
    """an object with one property of the given name (many: beside any number of properties, declared or required,
    whose names stay as they are); snake: what snake_case makes of its legal form"""
    def run(k):
        k.anchor(NP)
        K = mkstr(segs)
        ln = legal_name(segs)
        O = lit("other_9")
        OS = lit("other_9s")
        v, w = k.tag_sym("v"), k.tag_sym("w")
        R = None
        if ln is not None:
            R = ln[1]
            if snake is not None:
                S = mkstr(SNAKES[snake])
                R = {"letter": S, "digit": concat(lit("_"), S), "empty": None}[snake]

                def sn(eng, st, x):
                    if x in ln:
                        return S
                    if x == O:
                        return OS
                    return None
                k.sc.snake = sn
        elif snake is not None:
            k.sc.snake = lambda eng, st, x: OS if x == O else None
        fin = OS if snake is not None else O
        more = [mkstr((cch("%s1" % g, frozenset("l"), "1"), cch("%s2" % g, frozenset("ld"), "*"))) for g in "gh"] if many else []
        if many and getattr(k.sc, "snake", None):
            sn0 = k.sc.snake
            k.sc.snake = lambda eng, st, x: x if x in more else sn0(eng, st, x)
        names = [K, O, fin] + ([R] if R is not None else []) + list(ln or ()) + more

        def rule(eng, st, t):
            if t[0] == "app" and t[1] == "eq" and t[2][0] in names and t[2][1] in names:
                return t[2][0] == t[2][1]
            return None
        k.sc.rules.append(rule)
        fields = [(K, v, "1"), (O, w, "1")] + [(m, k.tag_sym("m"), "*") for m in more[:1]]
        rq = {"none": None, "both": [K, O], "key": [K], "other": [O], "empty": []}[req]
        required = NONE if rq is None else some(k.hset([(x, "1") for x in rq] + [(m, "*") for m in more]))
        T = k.tag("T", k.obj(fields, required))
        r = k.mut(T)
        k.call(NP, r, cbool(snake is not None))
        want = ([(R, v, "1")] if R is not None else []) + [(fin, w, "1")] + fields[2:]

        def chk(k2, got):
            if rq is None:
                return True if got == NONE or got[0] == "adt" and got[2] == 1 and got[3][0][0] == "set" and not got[3][0][2] else ("app", "no required list", ())
            if got[0] != "adt" or got[2] != 1 or got[3][0][0] != "set":
                if not rq and got == NONE:
                    return True
                return ("app", "a required list", ())
            have = {e[0]: e[2] for e in got[3][0][2]}
            for n, x in ((R, K), (fin, O)):
                if n is None:
                    continue
                m = [e for q, e in have.items() if k.e.eq(k.st, q, n) is not False]
                if bool(m) != (x in rq) or any(e != "1" for e in m):
                    return some(k.hset([(fin if x == O else R, "1") for x in rq if x == O or R is not None]))
            for x in more:
                if have.get(x) != "*":
                    return ("app", "a required list with the other names", (x,))
            return True
        return diff(k, k.after(r), upd(T, dt=k.obj(want, chk)))
    return run


def _np():
    P, Q = cch("p", LETTER, "1"), cch("q", LEGAL, "*")

    def add(n, segs, snake, req, many=False):
        CASES.append(Case("np", "%s%s required=%s" % (n, " snake:" + snake if snake else "", req), np_case(segs, snake, req, many)))
    for c in CHARS:
        n = repr(c)
        add("first %s" % n, [("lit", c), Q], None, "both")
        add("later %s" % n, [P, Q, ("lit", c), cch("r", LEGAL, "*")], None, "both")
    for req in ("none", "both", "key", "other", "empty"):
        for sn in (None, "letter", "digit", "empty"):
            if sn != "empty":
                add("plain", [P, Q], sn, req)
                add("digit first", [("lit", "6"), Q], sn, req)
                add("dots and dashes", [cch("p", frozenset("lu_.-"), "1"), cch("q", frozenset("lud_.-"), "*")], sn, req)
                add("dot digit", [("lit", ".5"), cch("q", frozenset("lud_.-"), "*")], sn, req)
            else:
                add("underscores", [("lit", "__")], sn, req)
                add("dot", [("lit", ".")], sn, req)
        if req in ("none", "both"):
            for sn in (None, "letter", "digit"):
                add("plain, beside many", [P, Q], sn, req, True)
                add("digit first, beside many", [("lit", "6"), Q], sn, req, True)
                add("dots and dashes, beside many", [cch("p", frozenset("lu_.-"), "1"), cch("q", frozenset("lud_.-"), "*")], sn, req, True)
            add("space, beside many", [P, Q, ("lit", " ")], None, req, True)
        for sn in (None, "letter"):
            add("empty", [], sn, req)
            add("dollar", [("lit", "$"), Q], sn, req)
            add("space", [P, Q, ("lit", " ")], sn, req)
            add("non-ASCII", [P, cch("z", frozenset("ax"), "+")], sn, req)
            add("non-ASCII digits", [cch("z", frozenset("n"), "+")], sn, req)


_np()


def np_clash(names, to, snake, req):
    """two or more properties that normalise to the same name: one column with that name, whichever property it is"""
    def run(k):
        k.anchor(NP)
        vs = [k.tag_sym("v%d" % i) for i in range(len(names))]
        O, w = lit("other_9"), k.tag_sym("w")
        if snake:
            k.sc.snake = lambda eng, st, x: lit(snake[str_const(x)]) if str_const(x) in snake else None
        required = NONE if req is None else some(k.hset([(lit(x), "1") for x in req]))
        T = k.tag("T", k.obj([(lit(n), v, "1") for n, v in zip(names, vs)] + [(O, w, "1")], required))
        r = k.mut(T)
        k.call(NP, r, cbool(bool(snake)))

        def one(k2, got):
            g = head(got)
            return True if g in vs or got in vs else ("app", "the schema of one of the properties", tuple(vs))
        return diff(k, k.after(r), upd(T, dt=k.obj([(lit(to), one, "1"), (O, w, "1")], ANY)))
    return run


_sn = {"aB": "a_b", "a_b": "a_b", "AB": "ab", "ab": "ab", "a_B": "a_b", "other_9": "other_9", "a_1": "a_1", "A_1": "a_1"}
for _i, (_ns, _to, _snk) in enumerate(((("a-b", "a.b"), "a_b", None), (("a-b", "a_b"), "a_b", None), (("a.b", "a_b", "a-b"), "a_b", None), (("1x", "_1x"), "_1x", None), (("aB", "a_b"), "a_b", _sn),
                                      (("AB", "ab"), "ab", _sn), (("aB", "a-b"), "a_b", _sn), (("aB", "a_b", "a_B"), "a_b", _sn), (("A.1", "a-1"), "a_1", _sn))):
    for _r in (None, _ns[:1], _ns[-1:]):
        CASES.append(Case("np", "clash %s%s required=%s" % (" ".join(_ns), " snake" if _snk else "", _r and _r[0]), np_clash(_ns, _to, _snk, _r)))


@case("np", "not an object")
def _(k):
    k.anchor(NP)
    out = []
    for f in (FALSE, TRUE):
        for n, dt in (("null", k.null()), ("atom", k.atom(A_STR)), ("map", k.map_(k.tag_sym("a"), k.tag_sym("b"))), ("array", k.arr(k.tag_sym("c"))), ("tuple", k.tup([(k.tag_sym("d"), "+")])), ("union", k.union([(k.tag_sym("e"), "+")]))):
            T = k.tag("T" + n, dt)
            r = k.mut(T)
            k.call(NP, r, f)
            out += diff(k, k.after(r), T, (n,))
    return out


# ------------------------------------------------------------------------------------------ names and namespaces
def head(t):
    """the function whose result (on an opaque node) t or its fields are"""
    while t[0] in ("proj", "adt"):
        t = t[1] if t[0] == "proj" else t[3][DT]
    return t


def named(k, v, name, path, nc):
    """v after name inference, as the child `name` of the node at `path`"""
    base = upd(mat(k, v), name=some(name))
    if path is not None:
        exact = mat(k, k.expect_mut(IN, upd(base, ns=some(path)), nc))
        return exact
    ref = head(mat(k, k.expect_mut(IN, base, nc)))

    def chk(k2, got):
        g = got if got[0] == "adt" else k.e.materialize(got)
        if g is None:
            return base
        h = head(g)
        if h[0] != "app" or h[1] != ref[1]:
            return ("app", "recursion into the child", (base,))
        ch = h[2][0]
        if ch[0] != "adt" or ch[3][DT] != base[3][DT]:
            return ("app", "recursion into the child", (base,))
        d = diff(k, ch[3][NAME], base[3][NAME])
        # below a node without a path of its own nothing is left of an earlier one
        return True if not d and ch[3][NS] == NONE else ch
    return chk


def in_path(k, nmode):
    N, S = (mkstr([cch(x, LETTER, "1"), cch(x + "2", LEGAL, "*")]) for x in "NS")
    return {"both": (some(N), some(S), concat(S, lit("."), N)), "name": (some(N), NONE, N), "none": (NONE, NONE, None), "ns": (NONE, some(S), concat(S, lit(".")))}[nmode]


def in_case(nmode, nc, mk):
    def run(k):
        k.anchor(IN)
        F = cbool(nc)
        name, ns, path = in_path(k, nmode)
        dt, want = mk(k, path, F)
        T = k.tag("T", dt, name=name, ns=ns)
        r = k.mut(T)
        k.call(IN, r, F)
        return diff(k, k.after(r), upd(T, dt=want))
    return run


def i_leaf(n):
    def mk(k, path, F):
        d = k.null() if n == "null" else ("adt", TYPE, ATOM, (k.sym("atom", "jst::ast::Atom"),))
        return d, d
    return mk


def i_map(k, path, F):
    a, v = k.tag_sym("key"), k.tag_sym("value")
    return k.map_(a, v), k.map_(named(k, a, lit("key"), path, F), named(k, v, lit("value"), path, F))


def i_arr(k, path, F):
    v = k.tag_sym("items")
    return k.arr(v), k.arr(named(k, v, lit("list"), path, F))


def i_tup(n):
    def mk(k, path, F):
        vs = [k.tag_sym("t%d" % i) for i in range(n)]
        return k.tup([(v, "1") for v in vs]), k.tup([(named(k, v, lit("f%d_" % i), path, F), "1") for i, v in enumerate(vs)])
    return mk


def i_tup_any(k, path, F):
    """a tuple of any length: the generic position has its number in its name"""
    v = k.tag_sym("t")
    if k.inst is not None:
        n = max(1, k.inst)
        return k.tup([(v, "1")] * n), k.tup([(named(k, v, lit("f%d_" % i), path, F), "1") for i in range(n)])
    t = k.tup([(v, "+")])

    def chk(k2, got):
        if got[0] != "seq" or len(got[1]) != 1 or got[1][0][0] != "+" or got[1][0][3] is not True:
            return ("app", "every position", ())
        g = seg_val(got[1][0])
        g = g if g[0] == "adt" else k.e.materialize(g)
        h = head(g)
        ch = h[2][0] if h[0] == "app" else None
        if ch is None or ch[0] != "adt" or ch[3][DT] != mat(k, v)[3][DT]:
            return ("app", "recursion into the child", (v,))
        nm = ch[3][NAME]
        s = segs_of(nm[3][0]) if nm[0] == "adt" and nm[2] == 1 else ()
        if len(s) == 3 and s[0] == ("lit", "f") and s[2] == ("lit", "_") and s[1][0] == "t" and "ix" in repr(s[1]) or "ctr" in repr(s):
            return True
        return ("app", "f<i>_", (nm,))
    return t, ("adt", TYPE, TUPLE, (("adt", "jst::ast::Tuple", 0, (chk,)),))


def i_union(k, path, F):
    v, w = k.tag_sym("v"), k.tag_sym("w")

    def rec(x):
        ref = head(mat(k, k.expect_mut(IN, upd(mat(k, x), name=NONE), F)))

        def chk(k2, got):
            g = got if got[0] == "adt" else k.e.materialize(got)
            h = head(g) if g is not None else ("sym", "?")
            if h[0] == "app" and h[1] == ref[1] and h[2][0][0] == "adt" and h[2][0][3][DT] == mat(k, x)[3][DT] and h[2][-1] == ref[2][-1]:
                return True
            return ("app", "recursion into the alternative", (x,))
        return chk
    return k.union([(v, "1"), (w, "+")]), ("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (("seq", (("1", rec(v)),) + k.segs(rec(w), "+", False)),)),))


def i_obj(req):
    def mk(k, path, F):
        # a legal name, a name that is renamed, a name that is not legal
        A, B, C = mkstr([cch("p", LETTER, "1"), cch("q", LEGAL, "*")]), concat(lit("a-b"), ("str", (cch("r", LEGAL, "*"),))), lit("$x")
        RA, RB = A, concat(lit("a_b"), ("str", (cch("r", LEGAL, "*"),)))
        if F[2]:
            SA, SB = lit("sa"), lit("sb")

            def sn(eng, st, x, legal_b=RB):
                return SA if x == A else SB if x == legal_b else None
            k.sc.snake = sn
            RA, RB = SA, SB
        names = [A, B, C, RA, RB, concat(lit("a_b"), ("str", (cch("r", LEGAL, "*"),)))]

        def rule(eng, st, t):
            if t[0] == "app" and t[1] == "eq" and t[2][0] in names and t[2][1] in names:
                return t[2][0] == t[2][1]
            return None
        k.sc.rules.append(rule)
        a, b, c = k.tag_sym("va"), k.tag_sym("vb"), k.tag_sym("vc")
        required = some(k.hset([(A, "1"), (B, "1")])) if req else NONE
        want = some(k.hset([(RA, "1"), (RB, "1")])) if req else NONE
        return k.obj([(A, a, "1"), (B, b, "1"), (C, c, "1")], required), \
            k.obj([(RA, named(k, a, RA, path, F), "1"), (RB, named(k, b, RB, path, F), "1")], want)
    return mk


for _nm in ("both", "name", "none", "ns"):
    for _nc in (False, True):
        for _n, _m in [("null", i_leaf("null")), ("atom", i_leaf("atom")), ("map", i_map), ("array", i_arr), ("tuple 1", i_tup(1)), ("tuple 3", i_tup(3)), ("tuple 12", i_tup(12)), ("tuple any", i_tup_any), ("union", i_union),
                       ("object", i_obj(False)), ("object required", i_obj(True))]:
            if _nm == "ns" and _n != "object":
                continue
            CASES.append(Case("in", "%s name:%s case:%d" % (_n, _nm, _nc), in_case(_nm, _nc, _m)))


# ------------------------------------------------------------------------------------------ reading a JSON Schema
JT = "jst::jsonschema::Tag"
JV = "serde_json::value::Value"
CTX = "jst::Context"
R_FN = "<jst::ast::Tag as jst::traits::TranslateFrom<jst::jsonschema::Tag>>::translate_from"


def jstring(k, s):
    return k.variant(JV, "String", lit(s) if isinstance(s, str) else s)


def reader(k, tuple_struct=None):
    """common setting: context, logs of the name and nullability inference"""
    ctx = k.struct(CTX, "ctx", tuple_struct=tuple_struct)
    log = []

    def icept(eng, st, f, args, site):
        if f["path"] in (IN, NUL):
            v = eng.deepderef(st, args[0])
            if v[0] in ("adt", "phi"):
                log.append((f["path"], v, eng.deref(st, args[1])))
                return UNIT
        return None
    k.sc.icepts.append(icept)
    k.ctx, k.log = ctx, log
    k.errs = set()
    k.p.fn(R_FN) or k.fn(R_FN)

    def rule(eng, st, t):
        if t[0] == "app" and t[1] in k.p.fns:
            bt = eng.ptype(t)
            if bt is not None and bt["k"] == "adt" and bt["path"] == RES:
                return 1 if any(a in k.errs for a in t[2]) else 0
        return None
    k.sc.rules.append(rule)
    return ctx


def child(k, name):
    return k.sym(name, JT)


def boxed(v):
    return v


def reading(k, c, nullable=None):
    """matches the result of reading the child c under the same options"""
    tuple_any = all(x == ("proj", ("sym", "ctx"), ("f", None, i)) for i, x in enumerate(k.ctx[3]))
    def chk(k2, got):
        d = got
        if nullable is not None and got[0] == "adt":
            if got[3][NULLABLE] != nullable and k.e.truth(k.st, got[3][NULLABLE]) != k.e.truth(k.st, nullable):
                return ("app", "nullable", (nullable,))
        h = head(d)
        if d[0] == "adt":
            for i, x in enumerate(d[3]):
                if i == NULLABLE and nullable is not None:
                    continue
                if x[0] != "proj" or head(x) != h or x[2] != ("f", None, i):
                    return ("app", "the child as it was read", (c,))
        elif nullable is not None:
            return ("app", "nullable", (nullable,))
        if h[0] != "app" or h[1] not in k.p.fns or c not in h[2]:
            return ("app", "reading of", (c,))
        if k.ctx not in h[2] and not (tuple_any and ("sym", "ctx") in h[2]):
            return ("app", "reading under the same options", (c, k.ctx))
        return True
    return chk


def node(dt, nullable=False, desc=ANY, title=ANY):
    return ("adt", TAG, 0, (dt, NONE, ANY, cbool(nullable) if isinstance(nullable, bool) else nullable, ANY, desc, title))


def r_schema(k, typ=None, fmt="any", sym="schema", obj=None, arr=None, **kw):
    o = k.struct("jst::jsonschema::Object", "schema.object", **(obj or {}))
    a = k.struct("jst::jsonschema::Array", "schema.array", **(arr or {}))
    if fmt == "any":
        f = k.sym("format", "core::option::Option<jst::jsonschema::Format>")
    else:
        f = NONE if fmt is None else some(k.variant("jst::jsonschema::Format", fmt))
    if "extra" not in kw and any(x["name"] == "extra" for x in k.e.adt_info(JT)["variants"][0]["fields"]):
        # any members that are no keyword
        kw["extra"] = k.hmap([(k.key("another member"), k.sym("its value", JV), "*")])
    return k.struct(JT, sym, data_type=typ if typ is not None else k.variant(JV, "Null"), format=f, object=o, array=a, **kw)


def r_run(k, schema, want_dt, nullable=False):
    """want_dt None: rejected"""
    try:
        got = k.e.deepderef(k.st, k.call(R_FN, schema, k.ctx))
    except Diverge:
        return [] if want_dt == "abort" else [Diff((), ("app", "abort", ()), ("app", "a result", ()))]
    if want_dt == "abort":
        return [Diff((), got, ("app", "abort", ()))]
    if want_dt is None:
        return diff(k, got, ("adt", RES, 1, (ANY,)))
    want = node(want_dt, nullable, k.get(schema, "description"), k.get(schema, "title"))
    w = list(want[3])
    w[ROOT] = TRUE
    out = diff(k, got, ("adt", RES, 0, (("adt", TAG, 0, tuple(w)),)))
    seq = [(p, f) for p, v, f in k.log]
    wl = [(IN, k.get(k.ctx, "normalize_case")), (NUL, k.get(k.ctx, "force_nullable"))]
    if seq != wl:
        out.append(Diff(("inference after reading",), ("app", "calls", tuple(("app", p, (f,)) for p, f in seq)), ("app", "calls", tuple(("app", p, (f,)) for p, f in wl))))
    else:
        for p, v, f in k.log:
            out += diff(k, v[3][DT], want_dt, (p.rsplit("::", 1)[-1],)) if v[0] == "adt" else diff(k, v, node(want_dt), (p.rsplit("::", 1)[-1],))
    return out


JSON_DT = A_JSON
SCALARS = {"boolean": A_BOOL, "number": A_NUM, "integer": A_INT, "string": A_STR, "date-time": A_DT, "bytes": A_BYTES}
FORMATS = [None, "DateTime", "Bytes", "Json", "Other"]
NOKW = dict(properties=NONE, additional_properties=NONE, pattern_properties=NONE)


def scalar_dt(k, name):
    return k.null() if name == "null" else k.atom(SCALARS[name])


def r_scalar(name, fmt):
    def run(k):
        reader(k)
        w = scalar_dt(k, name)
        if name == "string" and fmt == "DateTime":
            w = k.atom(A_DT)
        if name == "string" and fmt == "Bytes":
            w = k.atom(A_BYTES)
        return r_run(k, r_schema(k, jstring(k, name), fmt), w, name == "null")
    return run


for _t in ["null"] + list(SCALARS):
    for _f in FORMATS:
        CASES.append(Case("R", "type %s format %s" % (_t, _f), r_scalar(_t, _f)))


def r_unknown(name):
    def run(k):
        reader(k)
        return r_run(k, r_schema(k, jstring(k, name)), "abort")
    return run


for _t in ("foo", "Null", "datetime", "String", "any", ""):
    CASES.append(Case("R", "unknown type %r" % _t, r_unknown(_t)))
OTHER_TYPE = ("sym", "OTHER TYPE")
TYPES = ("null", "boolean", "number", "integer", "string", "object", "array", "date-time", "bytes")


def other_type(k):
    """a text that is none of the known type names"""
    def rule(eng, st, t):
        if t[0] == "app" and t[1] == "eq" and OTHER_TYPE in t[2]:
            o = [str_const(x) for x in t[2] if x != OTHER_TYPE]
            return False if o and o[0] in TYPES else None
    k.sc.rules.append(rule)
    return k.sym(OTHER_TYPE[1], "alloc::string::String")


for _f in FORMATS:
    def _run(k, f=_f):
        reader(k)
        return r_run(k, r_schema(k, jstring(k, other_type(k)), f), "abort")
    CASES.append(Case("R", "unknown type, any other text, format %s" % _f, _run))


@case("R", "type list with any other text")
def _(k):
    reader(k)
    return r_run(k, r_schema(k, k.variant(JV, "Array", k.seq([(jstring(k, "string"), "1"), (jstring(k, other_type(k)), "1")]))), "abort")




def r_none(v, fmt):
    """without a (string or list) type a schema is an object"""
    def run(k):
        reader(k)
        dt = k.variant(JV, v, *([k.sym("x")] if v in ("Bool", "Number", "Object") else []))
        c = child(k, "c")
        K = k.key("p")
        R = k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>")
        s = r_schema(k, dt, fmt, obj=dict(properties=some(k.hmap([(K, c, "+")])), required=R))
        return r_run(k, s, k.obj([(K, reading(k, c), "+")], R))
    return run


for _v in ("Null", "Bool", "Number", "Object"):
    for _f in FORMATS:
        CASES.append(Case("R", "type absent (%s) format %s" % (_v, _f), r_none(_v, _f)))


ALLT = ["null"] + list(SCALARS) + ["object", "array"]


def list_item(k, s, name, c):
    if name == "object":
        return node(k.atom(A_JSON), False, k.get(s, "description"), k.get(s, "title"))
    if name == "array":
        return node(k.arr(reading(k, c)), False, k.get(s, "description"), k.get(s, "title"))
    return node(scalar_dt(k, name), name == "null", k.get(s, "description"), k.get(s, "title"))


def of_one(union, items):
    """the union of one member resolves to that member, so it may as well be read as the member"""
    return ("oneof", (union, items[0][3][DT])) if items else union


def r_list(names, fmt="any"):
    def run(k):
        reader(k)
        c = child(k, "c")
        dt = k.variant(JV, "Array", k.seq([(jstring(k, n), m) for n, m in names]))
        s = r_schema(k, dt, fmt, obj=dict(NOKW), arr=dict(items=some(k.variant("jst::jsonschema::ArrayType", "Tag", c))), one_of=NONE)
        items = ("mset", tuple(x for n, m in names for x in k.segs(list_item(k, s, n, c), m, False)))
        return r_run(k, s, of_one(("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (items,)),)), [list_item(k, s, n, c) for n, m in names if len(names) == 1 and m == "1"]), any(n == "null" for n, m in names))
    return run


for _a in ALLT:
    CASES.append(Case("R", "type list [%s]" % _a, r_list([(_a, "1")])))
    for _b in ALLT:
        CASES.append(Case("R", "type list [%s, %s]" % (_a, _b), r_list([(_a, "1"), (_b, "1")])))
for _f in FORMATS:
    for _a in ALLT:
        CASES.append(Case("R", "type list [%s] format %s" % (_a, _f), r_list([(_a, "1")], _f)))
    CASES.append(Case("R", "type list [null, string] format %s" % _f, r_list([("null", "1"), ("string", "1")], _f)))
CASES.append(Case("R", "type list [any number of each, in blocks]", r_list([(t, "+") for t in ALLT])))


def r_list_of(names, part):
    """a list of type names in a schema that has properties, map keywords, oneOf, or no items"""
    def run(k):
        reader(k)
        c = child(k, "c")
        K = k.key("p")
        R = k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>")
        o, one = dict(NOKW, required=R), NONE
        items = some(k.variant("jst::jsonschema::ArrayType", "Tag", c)) if part != "no items" else NONE
        dt, un = k.atom(A_JSON), False
        if part == "properties":
            o["properties"] = some(k.hmap([(K, c, "+")]))
            dt = k.obj([(K, reading(k, c), "+")], R)
        elif part == "no properties":
            o["properties"] = some(k.hmap([]))
            dt = k.obj([], R)
        elif part == "additionalProperties":
            o["additional_properties"] = addp(k, "schema", c)
            dt = k.map_(map_key(k), reading(k, c))
        elif part == "oneOf":
            one = some(k.seq([(c, "+")]))
            dt = ("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (("mset", tuple(k.segs(reading(k, c), "+", False))),)),))

            def kind(eng, st, t):
                bt = eng.ptype(t) if t[0] in ("proj",) else None
                return ATOM if bt is not None and bt["k"] == "adt" and bt["path"] == TYPE and t[2] == ("f", None, DT) else None
            k.sc.rules.append(kind)
        s = r_schema(k, k.variant(JV, "Array", k.seq([(jstring(k, n), "1") for n in names])), "any", obj=o, arr=dict(items=items), one_of=one)

        def item(n):
            if n == "object":
                return node(dt, un, k.get(s, "description"), k.get(s, "title"))
            return list_item(k, s, n, c)
        if part == "no items" and "array" in names:
            return r_run(k, s, None)
        return r_run(k, s, of_one(("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (("mset", tuple(("1", item(n)) for n in names)),)),)), [item(n) for n in names if len(names) == 1]), "null" in names)
    return run


for _p in ("properties", "no properties", "additionalProperties", "oneOf", "no items"):
    for _l in ([_a] for _a in ALLT):
        CASES.append(Case("R", "type list [%s] with %s" % (_l[0], _p), r_list_of(_l, _p)))
    for _l in (["null", "object"], ["object", "null"], ["null", "null"], ["string", "object"], ["object", "array"], ["null", "array"], ["array", "null"], ["null", "string"], ["null", "object", "array"], ["boolean", "null", "integer"]):
        CASES.append(Case("R", "type list [%s] with %s" % (", ".join(_l), _p), r_list_of(_l, _p)))


@case("R", "type list with an unknown name")
def _(k):
    reader(k)
    return r_run(k, r_schema(k, k.variant(JV, "Array", k.seq([(jstring(k, "string"), "1"), (jstring(k, "foo"), "1")]))), "abort")


@case("R", "type list with a non-string")
def _(k):
    reader(k)
    return r_run(k, r_schema(k, k.variant(JV, "Array", k.seq([(k.variant(JV, "Bool", k.sym("b")), "1")]))), "abort")


ADDS = ["none", "true", "false", "schema"]


def addp(k, mode, c):
    if mode == "none":
        return NONE
    if mode == "schema":
        return some(k.variant("jst::jsonschema::AdditionalProperties", "Object", c))
    return some(k.variant("jst::jsonschema::AdditionalProperties", "Bool", cbool(mode == "true")))


def map_key(k):
    return node(k.atom(A_STR), False)


def bmap(k, entries):
    return ("map", "btree", k.hmap(entries)[2])


def pmap_of(k, entries):
    """the map type of patternProperties as declared"""
    t = k.e.adt_info("jst::jsonschema::Object")
    ty = [k.p.types[f["ty"]]["s"] for f in t["variants"][0]["fields"] if f["name"] == "pattern_properties"]
    return ("map", "hash" if ty and "HashMap" in ty[0] else "btree", k.hmap(entries)[2])


def r_object(props, add, pat, oneof, err=None, kind=ATOM, nullat="one3"):
    def run(k):
        reader(k)
        P1, P2, Q1, Q2 = k.keys("p1", "p2", "x1", "x2")
        c = {n: child(k, n) for n in ("prop1", "prop2", "add", "pat1", "pat2", "one1", "one2", "one3")}
        R = k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>")
        o = dict(required=R, additional_properties=addp(k, add, c["add"]))
        o["properties"] = {"none": NONE, "empty": some(k.hmap([])), "some": some(k.hmap([(P1, c["prop1"], "+"), (P2, c["prop2"], "1")]))}[props]
        o["pattern_properties"] = {"none": NONE, "empty": some(pmap_of(k, [])), "some": some(pmap_of(k, [(Q1, c["pat1"], "+"), (Q2, c["pat2"], "1")]))}[pat]
        ones = {"none": NONE, "empty": some(k.seq([])), "some": some(k.seq([(c["one1"], "1"), (c["one2"], "+"), (c["one3"], "1")])),
                "null": some(k.seq([(c["one1"], "1"), (c["one2"], "+"), (c["one3"], "1")]))}[oneof]
        s = r_schema(k, jstring(k, "object"), "any", obj=o, one_of=ones)

        def isnull(eng, st, t):
            bt = eng.ptype(t) if t[0] in ("proj",) else None
            if bt is not None and bt["k"] == "adt" and bt["path"] == TYPE and t[2] == ("f", None, DT):
                h = head(t)
                return NULL if oneof == "null" and h[0] == "app" and c[nullat] in h[2] else kind
            return None
        k.sc.rules.append(isnull)
        if err:
            k.errs.add(c[err])
            return r_run(k, s, None)
        rd = {n: reading(k, x) for n, x in c.items()}
        nullable = False
        if props != "none":
            w = k.obj([(P1, rd["prop1"], "+"), (P2, rd["prop2"], "1")] if props == "some" else [], R)
        elif pat != "none":
            vals = [("+", None, rd["pat1"], True), ("1", rd["pat2"])] if pat == "some" else []
            if add == "schema":
                vals = [("1", rd["add"])] + vals
            w = k.map_(map_key(k), node(("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (("mset", tuple(vals)),)),)), False, NONE, NONE))
        elif add == "schema":
            w = k.map_(map_key(k), rd["add"])
        elif oneof != "none":
            vals = [("1", rd["one1"]), *k.segs(rd["one2"], "+", False), ("1", rd["one3"])] if oneof != "empty" else []
            w = ("adt", TYPE, UNION, (("adt", "jst::ast::Union", 0, (("mset", tuple(vals)),)),))
            nullable = oneof == "null"
        else:
            w = k.atom(A_JSON)
        return r_run(k, s, w, nullable)
    return run


for _p in ("none", "empty", "some"):
    for _a in ADDS:
        for _q in ("none", "empty", "some"):
            for _o in ("none", "empty", "some", "null"):
                if _p != "none" and (_q == "empty" or _o in ("empty", "null")):
                    continue
                CASES.append(Case("R", "object properties:%s additionalProperties:%s patternProperties:%s oneOf:%s" % (_p, _a, _q, _o), r_object(_p, _a, _q, _o)))
for _kn, _kd in (("object", OBJECT), ("map", MAP), ("array", ARRAY), ("tuple", TUPLE), ("union", UNION), ("null", NULL)):
    for _p, _a, _q, _o in (("none", "none", "none", "some"), ("none", "none", "none", "null"), ("some", "none", "none", "some"), ("none", "schema", "none", "none"), ("none", "schema", "some", "none"), ("none", "none", "some", "some")):
        if _kd == NULL and _o != "none":
            continue
        CASES.append(Case("R", "object properties:%s additionalProperties:%s patternProperties:%s oneOf:%s of kind %s" % (_p, _a, _q, _o, _kn), r_object(_p, _a, _q, _o, None, _kd)))
for _na in ("one1", "one2"):
    CASES.append(Case("R", "object properties:none additionalProperties:none patternProperties:none oneOf:null at %s" % _na, r_object("none", "none", "none", "null", None, ATOM, _na)))
for _e, _p in [("prop1", ("some", "none", "none", "none")), ("prop2", ("some", "schema", "some", "some")), ("add", ("none", "schema", "none", "none")), ("add", ("none", "schema", "some", "some")),
               ("pat1", ("none", "schema", "some", "none")), ("pat2", ("none", "none", "some", "none")), ("pat1", ("none", "false", "some", "some")), ("pat2", ("none", "schema", "some", "none")),
               ("one1", ("none", "none", "none", "some")), ("one2", ("none", "true", "none", "some")), ("one3", ("none", "false", "none", "null"))]:
    CASES.append(Case("R", "object %s rejected (%s)" % (_e, "/".join(_p)), r_object(*_p, err=_e)))


def usz(n):
    return NONE if n is None else some(cint(n))


def r_array(items, ts, err=None):
    def run(k):
        reader(k, ts)
        c = child(k, "c")
        arr = dict(items=NONE if items == "none" else some(k.variant("jst::jsonschema::ArrayType", "Tag", c)))
        if err:
            k.errs.add(c)
        s = r_schema(k, jstring(k, "array"), "any", arr=arr)
        return r_run(k, s, None if items == "none" or err else k.arr(reading(k, c)))
    return run


for _ts in (False, True):
    CASES.append(Case("R", "array without items, tuple-struct %s" % _ts, r_array("none", _ts)))
    CASES.append(Case("R", "array, tuple-struct %s" % _ts, r_array("tag", _ts)))
    CASES.append(Case("R", "array items rejected, tuple-struct %s" % _ts, r_array("tag", _ts, True)))


def r_tuple(n, add, mn, mx, ts=True, err=None):
    def run(k):
        reader(k, ts)
        cs = [child(k, "c%d" % i) for i in range(n)]
        a = child(k, "add")
        arr = dict(items=some(k.variant("jst::jsonschema::ArrayType", "TagTuple", k.seq([(x, "1") for x in cs]))), additional_items=addp(k, add, a), min_items=usz(mn), max_items=usz(mx))
        s = r_schema(k, jstring(k, "array"), "any", arr=arr)
        if not ts:
            return r_run(k, s, k.atom(A_JSON))
        if err is not None:
            k.errs.add(a if err == "add" else cs[err])
            return r_run(k, s, None)
        ok_ = add == "false" or add == "none" and mx == n or add == "none" and mx is None and n == 0 or add == "schema" and (mx if mx is not None else 0) >= n
        if not ok_:
            return r_run(k, s, None)
        m = n if mn is None else mn
        w = [("1", reading(k, x, TRUE if i >= m else None)) for i, x in enumerate(cs)]
        if add == "schema":
            w += [("1", reading(k, a, TRUE)) for _ in range(n, mx if mx is not None else 0)]
        return r_run(k, s, ("adt", TYPE, TUPLE, (("adt", "jst::ast::Tuple", 0, (("seq", tuple(w)),)),)))
    return run


for _n in range(4):
    for _a in ADDS:
        for _mx in [None] + list(range(0, 6)):
            for _mn in [None] + list(range(0, 5)):
                CASES.append(Case("R", "tuple of %d, additionalItems:%s, maxItems:%s, minItems:%s" % (_n, _a, _mx, _mn), r_tuple(_n, _a, _mn, _mx)))
        CASES.append(Case("R", "tuple of %d, additionalItems:%s, tuple-struct off" % (_n, _a), r_tuple(_n, _a, None, _n, False)))
for _n, _a, _mx, _mn in ((12, "false", None, 5), (12, "false", 30, None), (20, "false", 3, 19), (12, "none", 12, 11), (12, "none", 13, None), (17, "schema", 40, 8), (17, "schema", 40, 30), (1, "schema", 25, 1), (33, "false", None, None), (1, "schema", 300, 1), (2, "schema", 1100, None), (40, "false", None, 0)):
    CASES.append(Case("R", "tuple of %d, additionalItems:%s, maxItems:%s, minItems:%s" % (_n, _a, _mx, _mn), r_tuple(_n, _a, _mn, _mx)))


def r_tuple_any(add, mn, ts=True):
    """closed tuples of any length"""
    def run(k):
        reader(k, ts)
        c, c1 = child(k, "c"), child(k, "last")
        mx = k.sym("max", "core::option::Option<usize>")
        arr = dict(items=some(k.variant("jst::jsonschema::ArrayType", "TagTuple", k.seq([(c, "+"), (c1, "1")]))), additional_items=addp(k, add, None), min_items=usz(mn), max_items=mx)
        s = r_schema(k, jstring(k, "array"), "any", arr=arr)
        nul = TRUE if mn == 0 else None
        w = k.seq([(reading(k, c, nul), "+"), (reading(k, c1, nul), "1")])
        return r_run(k, s, ("adt", TYPE, TUPLE, (("adt", "jst::ast::Tuple", 0, (w,)),)))
    return run


for _mn in (0,):
    CASES.append(Case("R", "closed tuple of any length, minItems:%s" % _mn, r_tuple_any("false", _mn)))
CASES.append(Case("R", "tuple position rejected", r_tuple(3, "false", None, None, True, 1)))
CASES.append(Case("R", "tuple additionalItems rejected", r_tuple(2, "schema", None, 3, True, "add")))


# ------------------------------------------------------------------------------------------ Avro and BigQuery output
AV = "jst::avro::Type"
EA_FN = "<jst::avro::Type as jst::traits::TranslateFrom<jst::ast::Tag>>::translate_from"
BQ = "jst::bigquery::Tag"
EB_FN = "<jst::bigquery::Tag as jst::traits::TranslateFrom<jst::ast::Tag>>::translate_from"
METHODS = ["Cast", "Drop", "Panic"]
K_NAMES = ["boolean", "integer", "number", "string", "datetime", "json", "bytes"]


class Emit:
    """common setting of an emission case"""

    def __init__(self, k, fmt, method="Cast", allow=None, regex=None, match=False):
        self.k, self.fmt, self.method = k, fmt, method
        t = k.e.adt_info("jst::ResolveMethod")
        if t is None:
            raise Missing("jst::ResolveMethod")
        R = k.sym("R", "alloc::string::String")
        self.R = R
        self.ctx = k.struct(CTX, "ctx", resolve_method=k.variant("jst::ResolveMethod", method), allow_maps_without_value=allow,
                            json_object_path_regex=None if regex is None else some(R) if regex else NONE)
        self.fn = k.fn(EA_FN if fmt == "avro" else EB_FN)
        self.log, self.errs, self.matched = [], set(), []
        self.children = set()

        def icept(eng, st, f, args, site):
            if f["path"] in (IN, NUL, TC):
                v = eng.deepderef(st, args[0])
                if v[0] == "adt":
                    self.log.append((f["path"].rsplit("::", 1)[-1], v, eng.deref(st, args[1]) if len(args) > 1 else None))
                    return UNIT
            if f["id"] == self.fn["id"] and len(eng.stack) > 0:
                return self.sub(eng, st, args)
            return None
        k.sc.icepts.append(icept)

        def rule(eng, st, t):
            if t[0] == "app" and t[1] == self.fn["id"]:
                return 1 if any(a in self.errs for a in t[2]) else 0
            if t[0] == "app" and t[1] == "is_match":
                self.matched.append(t[2])
                return match
            if t[0] == "app" and t[1] == "regex::new":
                return 0
            return None
        k.sc.rules.append(rule)

    def sub(self, eng, st, args):
        """translation of a child: its result is known by the induction hypothesis"""
        vals = [eng.deepderef(st, a) for a in args]
        return eng.app(self.fn["id"], vals, self.fn["body"]["locals"][0]["ty"])

    def child(self, name, kind=None, nullable=None):
        k = self.k
        c = k.tag_sym(name)
        if kind is not None:
            k.decide(k.fld(c, DT), kind)
        if nullable is not None:
            k.decide(k.fld(c, NULLABLE), nullable)
        return c

    def result(self, c):
        """the translation of the child c under the same options"""
        t = self.k.e.app(self.fn["id"], [c, self.ctx], self.fn["body"]["locals"][0]["ty"])
        return self.k.fld(t, 0, 0)

    def run(self, tag):
        try:
            return self.k.e.deepderef(self.k.st, self.k.call(self.fn, tag, self.ctx))
        except Diverge:
            return ("app", "abort", ())

    def calls(self, tag, root):
        """nullability (and names, unions) are inferred first, under the caller's options"""
        k = self.k
        nc, fnul = k.get(self.ctx, "normalize_case"), k.get(self.ctx, "force_nullable")
        out = []
        seq = [x[0] for x in self.log]
        need = (["collapse", "infer_name", "infer_nullability"] if root or self.fmt == "bigquery" else ["infer_nullability"])
        want = ("app", "calls", tuple(lit(x) for x in need))
        got = ("app", "calls", tuple(lit(x) for x in seq))
        if [x for x in seq if x in need or self.fmt == "avro" and x == "infer_name"] not in (need, ["collapse", "infer_nullability", "infer_name"] if len(need) == 3 else need):
            out.append(Diff(("preparation",), got, want))
        for n, v, a in self.log:
            w = nc if n == "infer_name" else fnul if n == "infer_nullability" else None
            if w is not None and a != w:
                out.append(Diff(("preparation", n, "option"), a, w))
            base = tag
            if self.fmt == "avro" and root and n == "infer_name":
                out += diff(k, v[3][NAME], some(lit("root")), ("preparation", n, "name"))
        return out


def method_result(em, okval, reason="error"):
    """what becomes of a node without counterpart"""
    if em.method == "Cast":
        return ("adt", RES, 0, (okval,))
    if em.method == "Drop":
        return ("adt", RES, 1, (ANY,))
    return ("app", "abort", ())


def av(em, kind, *fs):
    k = em.k
    if kind == "union":
        return k.variant(AV, "Union", ("seq", tuple(("1", x) for x in fs)))
    if kind in ("Record", "Array", "Map"):
        return k.variant(AV, "Complex", k.variant("jst::avro::Complex", kind, *fs))
    return k.variant(AV, "Primitive", k.variant("jst::avro::Primitive", kind))


def av_field(em, name, typ, default):
    k = em.k
    return k.struct("jst::avro::Field", None, name=name, doc=NONE, data_type=typ, default=some(k.variant(JV, "Null")) if default else NONE)


def av_record(em, tag, fields):
    k = em.k
    c = k.struct("jst::avro::CommonAttributes", None, name=tag[3][NAME][3][0] if tag[3][NAME][2] == 1 else ANY, namespace=tag[3][NS], doc=NONE, aliases=NONE)
    return av(em, "Record", k.struct("jst::avro::Record", None, common=c, fields=fields))


def av_wrap(em, t, null, isnull=False):
    return av(em, "union", av(em, "Null"), t) if null and not isnull else t


def av_tag(k, dt, nullable, root):
    N, S = (k.sym(n, "alloc::string::String") for n in ("name", "namespace"))
    if root:
        return k.tag("T", dt, name=some(lit("root")), ns=NONE, nullable=nullable, root=True)
    return k.tag("T", dt, name=some(N), ns=some(S), nullable=nullable, root=False)


def ea_run(em, tag, want, nullable, root, isnull=False):
    """want: the type before the null branch, None = no counterpart, "err" = rejected"""
    k = em.k
    got = em.run(tag)
    if want == "err":
        w = ("adt", RES, 1, (ANY,))
    elif want is None:
        w = method_result(em, av_wrap(em, av(em, "String"), nullable))
    else:
        w = ("adt", RES, 0, (av_wrap(em, want, nullable, isnull),))
    return diff(k, got, w) + em.calls(tag, root)


AV_ATOM = {A_BOOL: "Boolean", A_INT: "Long", A_NUM: "Double", A_STR: "String", A_DT: "String", A_BYTES: "Bytes"}


def ea_case(mk, nullable, root, method, regex=None, **kw):
    def run(k):
        em = Emit(k, "avro", method, regex=regex, match=bool(regex), **kw)
        dt, want = mk(em, nullable, root)
        tag = av_tag(k, dt, nullable, root)
        if callable(want):
            want = want(tag)
        return ea_run(em, tag, want, nullable, root, dt == k.null())
    return run


def e_null(em, nullable, root):
    return em.k.null(), av(em, "Null")


def e_atom(a):
    def mk(em, nullable, root):
        return em.k.atom(a), av(em, AV_ATOM[a]) if a != A_JSON else None
    return mk


def e_union(em, nullable, root):
    v = em.k.tag_sym("u")
    return em.k.union([(v, "+")]), None


NAMED = [("b", "a"), ("a", "A", "a_"), ("f0_", "f10_", "f2_"), ("list",), ("f0_",), ("root", "r"), ("value", "key"), ("key",), ("_a", "a", "b1", "B1", "aa", "_"), ("type", "name", "fields"), tuple("c%d" % i for i in range(12))]


def named_shape(names):
    """known names: (shape of the fields, names); the last of three or more fields is dropped where fields can be"""
    return [("1", i % 2 == 0, not (i > 1 and i == len(names) - 1)) for i in range(len(names))], [lit(x) for x in names]


def all_ok(sn):
    return [(m, nl, True) for m, nl, _ in sn[0]], sn[1]


def e_obj(shape, lits=None):
    """shape: classes of fields: (mult, nullable, ok)"""
    def mk(em, nullable, root):
        k = em.k
        names = lits or k.keys(*["k%d" % i for i in range(len(shape))]) if shape else []
        fs, want, keys = [], [], []
        for i, (m, nl, good) in enumerate(shape):
            c = em.child("c%d" % i, None, nl)
            fs.append((names[i], c, m))
            if not good:
                em.errs.add(c)
                continue
            f = av_field(em, names[i], em.result(c), nl)
            want.append((m, f) if m == "1" else (m, None, f, True))
            keys.append(names[i])
        if em.fmt == "avro":
            ws = ("seq", tuple(want[i] for i in sorted(range(len(keys)), key=lambda i: str_const(keys[i])))) if lits else ("sorted", tuple(want), keys)
            w = (lambda tag: av_record(em, tag, ws)) if want else None
            return k.obj(fs, k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>")), w
    return mk


def e_tup(shape):
    def mk(em, nullable, root):
        k = em.k
        items, want = [], []
        for i, (nl, good) in enumerate(shape):
            c = em.child("c%d" % i, None, nl)
            items.append((c, "1"))
            if not good:
                em.errs.add(c)
                continue
            want.append(("1", av_field(em, lit("f%d_" % i), em.result(c), nl)))
        return k.tup(items), lambda tag: av_record(em, tag, ("seq", tuple(want)))
    return mk


def e_tup_any(nl):
    def mk(em, nullable, root):
        k = em.k
        c = em.child("c", None, nl)

        def nm(k2, got):
            s = segs_of(got) or ()
            return True if k.inst is not None and len(s) == 1 and s[0] in [("lit", "f%d_" % i) for i in range(max(1, k.inst))] or len(s) == 3 and s[0] == ("lit", "f") and s[2] == ("lit", "_") and s[1][0] == "t" and ("ix" in repr(s[1]) or "ctr" in repr(s[1])) else ("app", "f<i>_", ())
        return k.tup([(c, "+")]), lambda tag: av_record(em, tag, ("seq", k.segs(av_field(em, nm, em.result(c), nl), "+", False)))
    return mk


def e_arr(kind, good, nl):
    def mk(em, nullable, root):
        k = em.k
        c = em.child("items", kind, nl)
        if not good:
            em.errs.add(c)
            return k.arr(c), "err"
        t = em.result(c)
        if kind == ARRAY:
            return k.arr(c), lambda tag: av(em, "Array", k.struct("jst::avro::Array", None, items=av_record(em, tag, ("seq", (("1", av_field(em, lit("list"), t, nl)),)))))
        return k.arr(c), av(em, "Array", k.struct("jst::avro::Array", None, items=t))
    return mk


def e_map(good, kind=None):
    def mk(em, nullable, root):
        k = em.k
        key, c = em.child("key"), em.child("value", kind)
        if not good:
            em.errs.add(c)
            return k.map_(key, c), "err"
        return k.map_(key, c), av(em, "Map", k.struct("jst::avro::Map", None, values=em.result(c)))
    return mk


OBJ_SHAPES = {"empty": [], "one": [("1", False, True)], "all": [("+", False, True), ("+", True, True)], "some dropped": [("+", False, True), ("+", True, False), ("1", True, True)],
              "one kept": [("1", True, True), ("+", False, False)], "all dropped": [("+", True, False), ("1", False, False)]}
TUP_SHAPES = {"0": [], "1": [(False, True)], "3": [(False, True), (True, True), (False, True)], "first dropped": [(False, False), (True, True)], "mid dropped": [(True, True), (True, False), (False, True)],
              "all dropped": [(False, False), (True, False)], "12": [(i % 3 == 0, True) for i in range(12)], "1100": [(i % 7 == 0, True) for i in range(1100)]}


def ea_all():
    for method in METHODS:
        for null in (False, True):
            for root in (False, True):
                tail = "%s%s%s" % (method, " nullable" if null else "", " root" if root else "")

                def add(n, mk, **kw):
                    CASES.append(Case("EA", "%s, %s" % (n, tail), ea_case(mk, null, root, method, **kw)))
                add("null", e_null)
                for a in range(7):
                    add("atom " + K_NAMES[a], e_atom(a))
                add("atom json, path pattern", e_atom(A_JSON), regex=True)
                add("union", e_union)
                for n, s in OBJ_SHAPES.items():
                    if method == "Drop" or "dropped" not in n and n != "one kept":
                        add("object " + n, e_obj(s))
                for ns in NAMED if method != "Panic" and not root else ():
                    add("object of %s" % " ".join(ns), e_obj(*(named_shape(ns) if method == "Drop" else all_ok(named_shape(ns)))))
                for n, s in TUP_SHAPES.items():
                    if (method == "Drop" or "dropped" not in n) and (n != "1100" or method == "Drop" and not null and not root):
                        add("tuple " + n, e_tup(s))
                add("tuple any", e_tup_any(False))
                add("tuple any optional", e_tup_any(True))
                for kd in range(7):
                    for nl in (False, True):
                        add("array of %s%s" % ("nullable " if nl else "", KINDS[kd]), e_arr(kd, True, nl))
                    if method == "Drop":
                        add("array of dropped " + KINDS[kd], e_arr(kd, False, False))
                for allow in (False, True):
                    add("map allow:%d" % allow, e_map(True), allow=allow)
                    if method == "Drop":
                        add("map dropped allow:%d" % allow, e_map(False), allow=allow)


ea_all()


BQ_ATOM = {A_BOOL: "Bool", A_INT: "Int64", A_NUM: "Float64", A_STR: "String", A_DT: "Timestamp", A_BYTES: "Bytes"}
MAXD = 1024


def bqa(k, name):
    return k.variant("jst::bigquery::Type", "Atom", k.variant("jst::bigquery::Atom", name))


def bqr(k, entries):
    return k.variant("jst::bigquery::Type", "Record", k.struct("jst::bigquery::Record", None, fields=k.hmap(entries)))


def fits(k, text, n):
    """is the text assumed to have at most n characters?"""
    for t, v in k.sc.facts.items():
        if t[0] == "app" and t[1] == "lt" and len(t[2]) == 2:
            a, b = t[2]
            for size in (("app", "str.count", (text,)), ("app", "len", (text,))):
                if b == size and not v and a[0] == "c" and a[2] <= n or a == size and v and b[0] == "c" and b[2] <= n + 1:
                    return True
    return False


def description(k, title, desc):
    """an expectation about the description of a column"""
    if title is None and desc is None:
        return NONE
    full = concat(title, lit(" - "), desc) if title is not None and desc is not None else title if title is not None else desc
    fs = segs_of(full)
    if str_const(full) is not None:
        return some(lit(str_const(full)[:MAXD]))

    def chk(k2, got):
        if got[0] != "adt" or got[1] != OPT or got[2] != 1:
            return ("app", "a description", (full,))
        x = got[3][0]
        if x == ("app", "str.take", (full, cint(MAXD))) or x == full and fits(k2, full, MAXD):
            return True
        if x[0] == "app" and x[1] == "str.take" and x[2][0] == full:
            return ("app", "str.take", (full, cint(MAXD)))
        if segs_of(x) == fs and fs is not None or x == full:
            return ("app", "str.take", (full, cint(MAXD)))
        return ("app", "str.take", (full, cint(MAXD)))
    return chk


def eb_tag(k, dt, nullable, root, td=(False, False), name=True):
    N, S = (k.sym(n, "alloc::string::String") for n in ("name", "namespace"))
    ti, de = (k.sym(n, "alloc::string::String") for n in ("title", "description"))
    kw = dict(name=some(N), ns=some(S)) if name else dict(name=NONE, ns=NONE)
    return k.tag("T", dt, nullable=nullable, root=root, title=some(ti) if td[0] else NONE, desc=some(de) if td[1] else NONE, **kw)


def eb_case(mk, nullable, root, method, td=(False, False), regex=None, match=False, name=True, **kw):
    def run(k):
        em = Emit(k, "bigquery", method, regex=regex, match=match, **kw)
        dt, want = mk(em, nullable, root)
        tag = eb_tag(k, dt, nullable, root, td, name)
        got = em.run(tag)
        kind = dt[2]
        mode = "Repeated" if kind in (ARRAY, MAP) else "Nullable" if kind == NULL or nullable else "Required"
        ti, de = tag[3][TITLE], tag[3][DESC]

        def full(t):
            return k.struct(BQ, None, name=tag[3][NAME], data_type=t, mode=k.variant("jst::bigquery::Mode", mode),
                            description=description(k, ti[3][0] if td[0] else None, de[3][0] if td[1] else None))
        if want == "err":
            w = ("adt", RES, 1, (ANY,))
        elif want is None:
            w = method_result(em, full(bqa(k, "String")))
        else:
            w = ("adt", RES, 0, (full(want),))
        out = diff(k, got, w) + em.calls(tag, root)
        if kind == ATOM and dt[3][0][2] == A_JSON and regex:
            # matched against the path of this node, from its beginning
            N = tag[3][NAME][3][0] if name else lit("__unknown__")
            path = concat(tag[3][NS][3][0], lit("."), N) if name else N
            ok_ = [concat(lit(p), em.R, lit(q)) for p, q in (("\\A(?:", ")"), ("^(?:", ")"))]
            if not em.matched:
                out.append(Diff(("path match",), ("app", "not consulted", ()), ("app", "is_match", (em.R, path))))
            for r, x in em.matched:
                pat = head(r)
                pat = pat[2][0] if pat[0] == "app" and pat[1].startswith("regex") else pat
                if pat not in ok_:
                    out.append(Diff(("path pattern",), pat, ok_[0]))
                out += diff(k, x, path, ("path matched",))
        return out
    return run


def b_atom(a, match=False):
    def mk(em, nullable, root):
        k = em.k
        if a == A_JSON:
            return k.atom(a), bqa(k, "Json") if match else None
        return k.atom(a), bqa(k, BQ_ATOM[a])
    return mk


def b_null(em, nullable, root):
    return em.k.null(), None


def b_obj(shape, lits=None):
    def mk(em, nullable, root):
        k = em.k
        names = lits or k.keys(*["k%d" % i for i in range(len(shape))]) if shape else []
        fs, want = [], []
        for i, (m, nl, good) in enumerate(shape):
            c = em.child("c%d" % i, None, nl)
            fs.append((names[i], c, m))
            if good:
                want.append((names[i], em.result(c), m))
            else:
                em.errs.add(c)
        req = k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>")
        return k.obj(fs, req), bqr(k, want) if want else None
    return mk


def bq_named(k, t, name):
    """the translated column t under another name"""
    m = k.e.materialize(t)
    return k.struct(BQ, None, name=some(name), **{n: k.get(m, n) for n in ("data_type", "mode", "description")})


def b_tup(shape):
    def mk(em, nullable, root):
        k = em.k
        items, want = [], []
        bad = False
        for i, (nl, good) in enumerate(shape):
            c = em.child("c%d" % i, None, nl)
            items.append((c, "1"))
            if not good:
                em.errs.add(c)
                bad = True
            else:
                want.append((lit("f%d_" % i), bq_named(k, em.result(c), lit("f%d_" % i)), "1"))
        return k.tup(items), "err" if bad else bqr(k, want)
    return mk


def b_arr(kind, good):
    def mk(em, nullable, root):
        k = em.k
        c = em.child("items", kind)
        if not good:
            em.errs.add(c)
            return k.arr(c), "err"
        t = em.result(c)
        if kind == ARRAY:
            return k.arr(c), bqr(k, [(lit("list"), t, "1")])
        return k.arr(c), k.get(k.e.materialize(t), "data_type")
    return mk


def b_map(good, kind=None):
    def mk(em, nullable, root):
        k = em.k
        key, c = em.child("key"), em.child("value", kind)
        ent = [(lit("key"), em.result(key), "1")]
        if good:
            ent.append((lit("value"), em.result(c), "1"))
        else:
            em.errs.add(c)
            if not k.get(em.ctx, "allow_maps_without_value")[2]:
                return k.map_(key, c), "err"
        return k.map_(key, c), bqr(k, ent)
    return mk


def eb_all():
    for method in METHODS:
        for null in (False, True):
            for root in (False, True):
                tail = "%s%s%s" % (method, " nullable" if null else "", " root" if root else "")

                def add(n, mk, **kw):
                    CASES.append(Case("EB", "%s, %s" % (n, tail), eb_case(mk, null, root, method, **kw)))
                if null:
                    add("null", b_null)
                for a in range(7):
                    add("atom " + K_NAMES[a], b_atom(a), **({"regex": False} if a == A_JSON else {}))
                for m in (False, True):
                    for nm in (False, True):
                        add("atom json, path %smatched%s" % ("" if m else "not ", "" if nm else ", nameless"), b_atom(A_JSON, m), regex=True, match=m, name=nm)
                add("atom string, path matched", b_atom(A_STR), regex=True, match=True)
                add("union", e_union)
                for n, s in OBJ_SHAPES.items():
                    if method == "Drop" or "dropped" not in n and n != "one kept":
                        add("object " + n, b_obj(s))
                for ns in NAMED if method != "Panic" and not root else ():
                    add("object of %s" % " ".join(ns), b_obj(*(named_shape(ns) if method == "Drop" else all_ok(named_shape(ns)))))
                add("object, path matched", b_obj(OBJ_SHAPES["all"]), regex=True, match=True)
                add("object empty, path matched", b_obj([]), regex=True, match=True)
                for n, s in TUP_SHAPES.items():
                    if (method == "Drop" or "dropped" not in n) and (n != "1100" or method == "Drop" and not null and not root):
                        add("tuple " + n, b_tup(s))
                for kd in range(7):
                    add("array of " + KINDS[kd], b_arr(kd, True))
                    if method == "Drop":
                        add("array of dropped " + KINDS[kd], b_arr(kd, False))
                for allow in (False, True):
                    for kd in (None, MAP, ARRAY, OBJECT):
                        add("map of %s allow:%d" % (KINDS[kd] if kd is not None else "any", allow), b_map(True, kd), allow=allow)
                    if method == "Drop":
                        add("map dropped allow:%d" % allow, b_map(False), allow=allow)
                for td in ((False, False), (True, False), (False, True), (True, True)):
                    for n, mk in (("atom", b_atom(A_STR)), ("object", b_obj(OBJ_SHAPES["one"])), ("array", b_arr(ATOM, True)), ("map", b_map(True)), ("tuple", b_tup(TUP_SHAPES["3"]))):
                        add("description of %s: title:%d description:%d" % ((n,) + td), mk, td=td)


eb_all()


def eb_desc(ti, de):
    """descriptions around the limit: n characters of which the last k are known"""
    def run(k):
        em = Emit(k, "bigquery")
        tag = k.tag("T", k.atom(A_STR), nullable=False, root=False, title=some(lit(ti)) if ti is not None else NONE, desc=some(lit(de)) if de is not None else NONE, name=some(lit("x")), ns=NONE)
        got = em.run(tag)
        return diff(k, got, ("adt", RES, 0, (k.struct(BQ, None, name=some(lit("x")), data_type=bqa(k, "String"), mode=k.variant("jst::bigquery::Mode", "Required"),
                                                      description=description(k, lit(ti) if ti is not None else None, lit(de) if de is not None else None)),)))
    return run


for _c, _n in (("a", "ASCII"), ("\u00e9", "two-byte"), ("\u20ac", "three-byte"), ("\U0001f600", "four-byte")):
    for _l in (0, 1, 1022, 1023, 1024, 1025, 1026, 3000):
        CASES.append(Case("EB", "description of %d %s characters" % (_l, _n), eb_desc(None, _c * _l)))
        CASES.append(Case("EB", "title of %d %s characters" % (_l, _n), eb_desc(_c * _l, None)))
        for _h in (0, 500, 1021, 1022):
            CASES.append(Case("EB", "title of %d and description of %d %s characters" % (_h, _l, _n), eb_desc(_c * _h, _c * _l)))


# ------------------------------------------------------------------------------------------ the BigQuery column list
S_FN = "<jst::bigquery::Schema as jst::traits::TranslateFrom<jst::ast::Tag>>::translate_from"


def s_case(kind, mode, shape=None, ok_=True, lits=None):
    """shape: how many columns of each class; lits: or the columns by name"""
    def run(k):
        f = k.fn(S_FN)
        g = k.fn(EB_FN)
        T = k.tag_sym("root")
        ctx = k.struct(CTX, "ctx")
        if kind == "atom":
            dt = k.variant("jst::bigquery::Type", "Atom", k.sym("atom", "jst::bigquery::Atom"))
        else:
            names = [lit(x) for x in lits] if lits else k.keys(*["k%d" % i for i in range(len(shape))]) if shape else []
            # the columns of a record carry the names they are listed under
            cols = [k.struct(BQ, "col%d" % i, name=some(n)) for i, n in enumerate(names)]
            dt = bqr(k, [(n, c, m) for n, c, m in zip(names, cols, shape)])
        col = k.struct(BQ, "column", name=NONE, data_type=dt, mode=k.variant("jst::bigquery::Mode", mode))
        calls = []

        def icept(eng, st, fn, args, site):
            if fn["id"] == g["id"]:
                calls.append([eng.deepderef(st, a) for a in args])
                return ("adt", RES, 0, (col,)) if ok_ else ("adt", RES, 1, (k.sym("reason"),))
            return None
        k.sc.icepts.append(icept)
        try:
            got = k.e.deepderef(k.st, k.call(f, T, ctx))
        except Diverge:
            got = ("app", "abort", ())
        if not ok_:
            if got == ("app", "abort", ()) or got[0] == "adt" and got[1] == RES and got[2] == 1:
                return []
            return [Diff((), got, ("app", "abort", ()))]
        if kind == "atom" or mode == "Repeated":
            w = upd_struct(k, col, name=some(lit("root")))
            w = ("seq", (("1", w),))
        else:
            w = ("seq", tuple(("1", c) for _, c in sorted(zip(lits, cols), key=lambda x: x[0]))) if lits else ("sorted", tuple((m, c) if m == "1" else (m, None, c, True) for c, m in zip(cols, shape)), tuple(names))
        out = diff(k, got, ("adt", RES, 0, (k.variant("jst::bigquery::Schema", "Root", w),)))
        if calls != [[T, ctx]]:
            out.append(Diff(("translation of the root",), ("app", "calls", tuple(x for c in calls for x in c)), ("app", "calls", (T, ctx))))
        return out
    return run


def upd_struct(k, v, **kw):
    t = k.e.adt_info(v[1])
    names = [f["name"] for f in t["variants"][v[2]]["fields"]]
    fs = list(v[3])
    for n, x in kw.items():
        fs[names.index(n)] = x
    return ("adt", v[1], v[2], tuple(fs))


for _m in ("Nullable", "Required", "Repeated"):
    CASES.append(Case("S", "scalar root, %s" % _m, s_case("atom", _m)))
    for _s in ([], ["1"], ["+"], ["+", "1"], ["+", "+"]):
        CASES.append(Case("S", "record root of %s, %s" % ("".join(_s) or "nothing", _m), s_case("record", _m, _s)))
for _s in (("b", "a"), ("a", "A", "a_"), ("f0_", "f10_", "f2_"), ("list",), ("f0_",), ("root",), ("value", "key"), ("key",), ("_a", "a", "b1", "B1", "aa", "_"), tuple("c%d" % _i for _i in range(12))):
    CASES.append(Case("S", "record root of the columns %s" % " ".join(_s), s_case("record", "Required", ["1"] * len(_s), lits=_s)))
CASES.append(Case("S", "root cannot be translated", s_case("atom", "Nullable", None, False)))


# ------------------------------------------------------------------------------------------ the library's entry points
def l_value(k, what):
    if what == "string":
        return k.variant(JV, "String", k.sym("M", "alloc::string::String"))
    if what in ("Bool", "Number", "Array"):
        return k.variant(JV, what, k.sym("x" + what, {"Bool": "bool", "Number": "serde_json::number::Number", "Array": "alloc::vec::Vec<serde_json::value::Value>"}[what]))
    return k.variant(JV, "Null")


def jobject(k, entries):
    return k.variant(JV, "Object", ("map", "btree", k.hmap(entries)[2]))


def l_case(fmt, meta, given, parses=True, ast_ok=True, out_ok=True):
    def run(k):
        f = k.fn("jst::convert_" + fmt)
        r, g = k.fn(R_FN), k.fn(EA_FN if fmt == "avro" else S_FN)
        V = k.sym("input", JV)
        R = k.sym("R", "alloc::string::String")
        ctx = k.struct(CTX, "ctx", json_object_path_regex=some(R) if given else NONE)
        other = k.sym("othermeta", JV)
        # any other members: of the schema, and of its metadata
        K1, K2 = k.key("another member"), k.key("another metadata member")
        k.sc.distinct += [{K1, lit("mozPipelineMetadata"), lit("$schema")}, {K2, lit("json_object_path_regex"), lit("bq_dataset_family")}]
        ent = [(lit("$schema"), k.sym("x", JV), "1"), (K1, k.sym("y", JV), "+")]
        o2 = [(lit("bq_dataset_family"), other, "1"), (K2, k.sym("z", JV), "+")]
        obj = {"absent": None, "regex": jobject(k, o2 + [(lit("json_object_path_regex"), l_value(k, "string"), "1")]), "without": jobject(k, o2)}
        if meta.startswith("regex is "):
            m = jobject(k, [(lit("json_object_path_regex"), l_value(k, meta[9:]), "1")])
        elif meta.startswith("is "):
            m = l_value(k, meta[3:])
        else:
            m = obj[meta]
        if m is not None:
            ent.append((lit("mozPipelineMetadata"), m, "1"))
        extra = k.hmap(ent)
        ti = [i for i, x in enumerate(k.e.adt_info(JT)["variants"][0]["fields"]) if x["name"] == "extra"]
        if not ti:
            raise Missing(JT + ".extra")

        def pj(eng, base, step):
            bt = eng.ptype(base)
            if bt is not None and bt.get("path") == JT and step == ("f", None, ti[0]):
                return extra
            return None
        k.sc.projs.append(pj)
        parsed = []

        def rule(eng, st, t):
            if t[0] == "app" and t[1].startswith("from_value:"):
                parsed.append(t)
                return 0 if parses else 1
            return None
        k.sc.rules.append(rule)
        calls = []
        A, O = k.tag_sym("ast"), k.sym("out", AV if fmt == "avro" else "jst::bigquery::Schema")

        def icept(eng, st, fn, args, site):
            if fn["id"] in (r["id"], g["id"]):
                calls.append((fn["id"], [eng.deepderef(st, a) for a in args]))
                good = ast_ok if fn["id"] == r["id"] else out_ok
                return ("adt", RES, 0, (A if fn["id"] == r["id"] else O,)) if good else ("adt", RES, 1, (k.sym("reason"),))
            if fn["id"] in (k.fn(EA_FN)["id"], k.fn(S_FN)["id"], k.fn(EB_FN)["id"]):
                return ("adt", RES, 0, (k.sym("another translation"),))
            return None
        k.sc.icepts.append(icept)
        c = ("caller", 0)
        k.st.cells[c] = V
        try:
            got = k.e.deepderef(k.st, k.call(f, ("ref", c, ()), ctx))
        except Diverge:
            got = ("app", "abort", ())
        out = []
        if k.st.cells.get(c) != V:
            out.append(Diff(("caller's schema",), k.st.cells.get(c), V))
        if not (parses and ast_ok and out_ok):
            return out if got == ("app", "abort", ()) else out + [Diff((), got, ("app", "abort", ()))]
        if not parsed or any(p[2][0] != V for p in parsed):
            out.append(Diff(("schema parsed",), ("app", "", tuple(p[2][0] for p in parsed)), V))
        schema = k.e.mkproj(parsed[0], ("f", 0, 0)) if parsed else None
        pat = some(l_value(k, "string")[3][0]) if meta == "regex" else some(R) if given else NONE
        ctx2 = upd_struct(k, ctx, json_object_path_regex=pat)
        want = [(r["id"], [schema, ctx2]), (g["id"], [A, ctx2])]
        if len(calls) != 2:
            return out + [Diff(("stages",), ("app", "calls", tuple(lit(x[0]) for x in calls)), ("app", "calls", tuple(lit(x[0]) for x in want)))]
        for (gi, ga), (wi, wa) in zip(calls, want):
            if gi != wi:
                out.append(Diff(("stages",), lit(gi), lit(wi)))
                continue
            for x, y, n in zip(ga, wa, ("input", "options")):
                out += diff(k, x, y, (gi.split(" ")[0].strip("<"), n))
        out += diff(k, got, lambda k2, x: True if x[0] == "app" and x[1] == "json" and x[2][0] == O else ("app", "json", (O,)))
        return out
    return run


for _f in ("avro", "bigquery"):
    for _g in (False, True):
        for _m in ["absent", "regex", "without", "is Null", "is Bool", "is Number", "is Array", "is string", "regex is Null", "regex is Bool", "regex is Number", "regex is Array"]:
            CASES.append(Case("L", "%s metadata:%s pattern given:%d" % (_f, _m, _g), l_case(_f, _m, _g)))
    for _i, _n in enumerate(("malformed schema", "schema rejected", "output rejected")):
        CASES.append(Case("L", "%s %s" % (_f, _n), l_case(_f, "absent", False, _i != 0, _i != 1, _i != 2)))



# ------------------------------------------------------------------------------------------ the two formats against each other
X_CLASS = {"Boolean": "boolean", "Bool": "boolean", "Long": "integer", "Int64": "integer", "Double": "number", "Float64": "number",
           "String": "text", "Timestamp": "text", "Bytes": "bytes", "Null": "null"}


def x_variant(k, v):
    t = k.e.adt_info(v[1])
    return t["variants"][v[2]]["name"]


def x_child(k, fn, t):
    """the child a translated value comes from"""
    h = t
    while h[0] in ("proj", "adt"):
        if h[0] == "proj":
            h = h[1]
        else:
            c = [x for x in h[3] if x[0] in ("proj", "app", "adt")]
            if not c:
                return None
            h = c[-1]
    if h[0] == "app" and h[1] == fn["id"]:
        return h[2][0]
    return None


def x_avro(k, em, v):
    """(status, nullable, shape) of an Avro result; shape names children, not their translations"""
    if v == ("app", "abort", ()):
        return "abort", None, None
    if v[0] != "adt" or v[1] != RES:
        return None
    if v[2] == 1:
        return "error", None, None
    t, null = v[3][0], False
    if t[0] != "adt":
        return None
    if x_variant(k, t) == "Union":
        ss = flat(t[3][0][1]) if t[3][0][0] == "seq" else ()
        if len(ss) != 2:
            return None
        null, t = True, seg_val(ss[1])
    n = x_variant(k, t)
    if n == "Primitive":
        if t[3][0][0] != "adt":
            return None
        c = X_CLASS.get(x_variant(k, t[3][0]))
        return ("ok", null or c == "null", c)
    t = t[3][0]
    n = x_variant(k, t)

    def fields(rec):
        out = []
        fs = k.get(rec, "fields")
        if fs[0] != "seq":
            return None
        for s in flat(fs[1]):
            f = seg_val(s)
            if f[0] != "adt":
                return None
            out.append((show(k.get(f, "name")), s[0], x_child(k, em.fn, k.get(f, "data_type"))))
        return tuple(sorted(out, key=repr))
    if n == "Record":
        return "ok", null, ("record", fields(t[3][0]))
    if n == "Array":
        it = k.get(t[3][0], "items")
        c = x_child(k, em.fn, it)
        if it[0] == "adt" and it[1] == AV and x_variant(k, it) == "Complex":
            return "ok", null, ("array of record", fields(it[3][0][3][0]))
        return "ok", null, ("array", c)
    if n == "Map":
        return "ok", null, ("map", x_child(k, em.fn, k.get(t[3][0], "values")))
    return None


def x_bq(k, em, v, kind):
    if v == ("app", "abort", ()):
        return "abort", None, None
    if v[0] != "adt" or v[1] != RES:
        return None
    if v[2] == 1:
        return "error", None, None
    t = v[3][0]
    mode, dt = k.get(t, "mode"), k.get(t, "data_type")
    mode = x_variant(k, mode) if mode[0] == "adt" else None
    null = None if mode == "Repeated" else mode == "Nullable"
    if dt[0] != "adt":
        return "ok", null, ("array", x_child(k, em.fn, dt)) if mode == "Repeated" else None
    if x_variant(k, dt) == "Atom":
        a = x_variant(k, dt[3][0])
        return "ok", null, "json" if a == "Json" else X_CLASS.get(a)
    fm = k.get(dt[3][0], "fields")
    if fm[0] != "map":
        return None
    fs = tuple(sorted(((show(e[0]), e[2], x_child(k, em.fn, e[1])) for e in fm[2]), key=repr))
    if mode == "Repeated":
        if kind == MAP:
            d = {n: c for n, m, c in fs}
            return "ok", null, ("map", d.get(show(lit("value"))))
        return "ok", null, ("array of record", fs)
    return "ok", null, ("record", fs)


def x_case(mk, nullable, root, method, regex=None):
    def run(k):
        res = []
        for fmt in ("avro", "bigquery"):
            k2 = Kit(k.p)
            k2.sc.facts.update(k.sc.facts)
            k2.e.tyof = k.e.tyof
            em = Emit(k2, fmt, method, regex=regex)
            dt, kind = mk(k2, em), None
            tag = k2.tag("T", dt, name=some(lit("root")) if root else some(lit("node")), ns=NONE if root else some(lit("root")), nullable=nullable, root=root,
                         title=NONE, desc=NONE)
            got = em.run(tag)
            res.append(x_avro(k2, em, got) if fmt == "avro" else x_bq(k2, em, got, dt[2]))
            for u, n in k2.e.unmodelled.items():
                k.e.unmodelled[u] = k.e.unmodelled.get(u, 0) + n
            k.e.fns_seen |= k2.e.fns_seen
            k.e.undecided.update(k2.e.undecided)
        a, b = res
        if a is None or b is None:
            k.e.unmodelled["comparison of results"] = 1
            return [Diff(("comparison",), ("sym", "?"), ("sym", "?"))]
        out = []
        if a[0] != b[0]:
            out.append(Diff(("counterpart",), ("app", "bigquery: " + b[0], ()), ("app", "avro: " + a[0], ())))
        elif a[0] == "ok":
            if b[1] is not None and a[1] != b[1]:
                out.append(Diff(("nullable",), ("app", "bigquery: %s" % b[1], ()), ("app", "avro: %s" % a[1], ())))
            if a[2] != b[2]:
                out.append(Diff(("structure",), ("app", "bigquery: " + x_show(b[2]), ()), ("app", "avro: " + x_show(a[2]), ())))
        return out
    return run


def x_null(nullable, root, method):
    """null has a counterpart in Avro and none in BigQuery"""
    def run(k):
        out = []
        want = {"avro": "ok", "bigquery": {"Cast": "ok", "Drop": "error", "Panic": "abort"}[method]}
        for fmt in ("avro", "bigquery"):
            k2 = Kit(k.p)
            k2.sc.facts.update(k.sc.facts)
            k2.e.tyof = k.e.tyof
            em = Emit(k2, fmt, method)
            tag = k2.tag("T", k2.null(), name=some(lit("root")) if root else some(lit("node")), ns=NONE if root else some(lit("root")), nullable=nullable, root=root, title=NONE, desc=NONE)
            got = em.run(tag)
            r = x_avro(k2, em, got) if fmt == "avro" else x_bq(k2, em, got, NULL)
            for u, n in k2.e.unmodelled.items():
                k.e.unmodelled[u] = k.e.unmodelled.get(u, 0) + n
            k.e.undecided.update(k2.e.undecided)
            k.e.fns_seen |= k2.e.fns_seen
            if r is None or r[0] == "ok" and fmt == "avro" and (got[3][0][0] != "adt" or x_variant(k2, got[3][0]) == "Primitive" and got[3][0][3][0][0] != "adt"):
                k.e.unmodelled["comparison of results"] = 1
                out.append(Diff(("comparison",), ("sym", "?"), ("sym", "?")))
            elif r[0] != want[fmt] or fmt == "avro" and not (got[0] == "adt" and x_variant(k2, got[3][0]) == "Primitive" and x_variant(k2, got[3][0][3][0]) == "Null"):
                out.append(Diff(("counterpart", fmt), ("app", r[0], ()), ("app", want[fmt], ())))
        return out
    return run


def x_show(x):
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("sym", "proj", "app", "adt"):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(x_show(y) for y in x) + ")"
    return str(x)


def x_all():
    def leaf(a):
        return lambda k, em: k.atom(a)

    def obj(shape, lits=None):
        def mk(k, em):
            names = lits or k.keys(*["k%d" % i for i in range(len(shape))]) if shape else []
            fs = []
            for i, (m, nl, good) in enumerate(shape):
                c = em.child("c%d" % i, None, nl)
                if not good:
                    em.errs.add(c)
                fs.append((names[i], c, m))
            return k.obj(fs, k.sym("req", "core::option::Option<std::collections::hash::set::HashSet<alloc::string::String>>"))
        return mk

    def tup(shape):
        def mk(k, em):
            return k.tup([(em.child("c%d" % i, None, nl), "1") for i, (nl, good) in enumerate(shape)])
        return mk

    def arr(kd, good):
        def mk(k, em):
            c = em.child("items", kd, False)
            if not good:
                em.errs.add(c)
            return k.arr(c)
        return mk

    def map_(k, em):
        return k.map_(em.child("key"), em.child("value"))

    def union(k, em):
        return k.union([(k.tag_sym("u"), "+")])
    for method in METHODS:
        for null in (False, True):
            for root in (False, True):
                tail = "%s%s%s" % (method, " nullable" if null else "", " root" if root else "")

                def add(n, mk, **kw):
                    CASES.append(Case("X", "%s, %s" % (n, tail), x_case(mk, null, root, method, **kw)))
                for a in range(7):
                    add("atom " + K_NAMES[a], leaf(a), **({"regex": False} if a == A_JSON else {}))
                for n, s in OBJ_SHAPES.items():
                    if method == "Drop" or "dropped" not in n and n != "one kept":
                        add("object " + n, obj(s))
                for ns in NAMED if method != "Panic" and not root else ():
                    add("object of %s" % " ".join(ns), obj(*(named_shape(ns) if method == "Drop" else all_ok(named_shape(ns)))))
                for n in ("1", "3", "12"):
                    add("tuple " + n, tup(TUP_SHAPES[n]))
                for kd in range(7):
                    add("array of " + KINDS[kd], arr(kd, True))
                    if method == "Drop":
                        add("array of dropped " + KINDS[kd], arr(kd, False))
                add("map", map_)
                add("union", union)
                if null:
                    CASES.append(Case("X", "null, " + tail, x_null(null, root, method)))


x_all()


from . import cases_perm, cases_ser, cases_main, cases_de  # noqa: E402,F401
