"""Stage P: the same input with its hash maps iterated in different orders; the results must not differ."""
import itertools
from .cases import *
from .cases import CASES, Case
from .cases import EA_FN, S_FN, EB_FN, AV, BQ


class Sub(Kit):
    """a kit of one of the compared runs; what it has seen and could not model counts for the case"""

    def __init__(self, k):
        Kit.__init__(self, k.p)
        self.e.fns_seen = k.e.fns_seen
        self.e.unmodelled = k.e.unmodelled


def hash_bag(v, depth=0):
    """some sequence in v is in hash order"""
    if not isinstance(v, tuple) or depth > 60:
        return False
    if len(v) > 2 and v[0] == "bag" and v[2] == "hash":
        return True
    return any(hash_bag(x, depth + 1) for x in v if isinstance(x, tuple))


def perms(n):
    return list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)]


def perm_case(n, mk, ordered=False):
    """mk(kit, permutation) -> result; the results must agree"""
    def run(k):
        first = None
        for p in perms(n):
            k2 = Sub(k)
            try:
                r = mk(k2, p)
            except Diverge:
                r = ("app", "abort", ())
            if hash_bag(r):
                return [Diff(("order",), ("app", "hash order", (r,)), ("app", "fixed order", ()))]
            if first is None:
                first = r
                continue
            d = diff(k2, r, first)
            if d:
                return [Diff(("order",) + tuple(d[0].path), d[0].got, d[0].want)]
        return []
    return run


# property names that collide after normalisation
def np_perm(names, required, nc):
    def mk(k, p):
        k.anchor(NP)
        vs = {n: k.tag_sym("v:" + n) for n in names}
        es = [(lit(names[i]), vs[names[i]], "1") for i in p]
        req = NONE if required is None else some(k.hset([(lit(names[i]), "1") for i in p if names[i] in required]))
        r = k.mut(k.tag("T", k.obj(es, req)))
        k.call(NP, r, cbool(nc))
        return k.after(r)
    return mk


for _g in (("a-b", "a.b"), ("a-b", "a_b"), ("a.b", "a_b"), ("a-b", "a.b", "a_b"), ("1a", "_1a"), ("x-1", "x.1", "c"), ("-", "."), ("a--b", "a.-b", "a-.b"), ("b", "a"), ("a$", "a"), ("b-", "b.", "a")):
    for _r in (None, _g, _g[:1], _g[-1:]):
        CASES.append(Case("P", "property names %s required=%s" % (" ".join(_g), "none" if _r is None else " ".join(_r)), perm_case(len(_g), np_perm(_g, _r, False))))
for _g in (("aB", "a_b"), ("AB", "ab"), ("fooBar", "FooBar", "foo_bar"), ("foo-bar", "fooBar"), ("a-b", "a.b"), ("1a", "_1a")):
    for _r in (None, _g, _g[:1]):
        CASES.append(Case("P", "property names %s required=%s, snake case" % (" ".join(_g), "none" if _r is None else " ".join(_r)), perm_case(len(_g), np_perm(_g, _r, True))))


# fields of the output, names known
def out_perm(fmt, names):
    def mk(k, p):
        em = Emit(k, fmt, "Cast")
        es = []
        for i in p:
            c = em.child("v:" + names[i], None, False)
            es.append((lit(names[i]), c, "1"))
        dt = k.obj(es, NONE)
        tag = av_tag(k, dt, False, False) if fmt == "avro" else eb_tag(k, dt, False, False)
        return em.run(tag)
    return mk


def cols_perm(names):
    def mk(k, p):
        f, g = k.fn(S_FN), k.fn(EB_FN)
        T = k.tag_sym("root")
        ctx = k.struct(CTX, "ctx")
        col = k.struct(BQ, "column", name=NONE, data_type=bqr(k, [(lit(names[i]), k.struct(BQ, "col:" + names[i], name=some(lit(names[i]))), "1") for i in p]), mode=k.variant("jst::bigquery::Mode", "Required"))

        def icept(eng, st, fn, args, site):
            return ("adt", RES, 0, (col,)) if fn["id"] == g["id"] else None
        k.sc.icepts.append(icept)
        return k.e.deepderef(k.st, k.call(f, T, ctx))
    return mk


GROUPS = [("b", "a"), ("a", "A"), ("ab", "aB", "Ab"), ("a", "a1", "a_"), ("c", "b", "a"), ("_1", "_2"), ("f10_", "f2_"), ("aa", "a"), ("key", "value", "list"), ("a_b", "ab", "a1b")]
for _g in GROUPS:
    CASES.append(Case("P", "fields of a record %s (avro)" % " ".join(_g), perm_case(len(_g), out_perm("avro", _g))))
    CASES.append(Case("P", "fields of a record %s (bigquery)" % " ".join(_g), perm_case(len(_g), out_perm("bigquery", _g))))
    CASES.append(Case("P", "columns %s" % " ".join(_g), perm_case(len(_g), cols_perm(_g))))


# merged objects
def uc_perm(decl, required, conflict=()):
    """decl: for every member the fields it declares"""
    def mk(k, p):
        k.anchor(NUL, TC, UC)
        resolved_default(k)
        names = sorted({x for d in decl for x in d})
        ks = dict(zip(names, k.keys(*names)))
        items = []
        for i, d in enumerate(decl):
            order = [names[j] for j in p if j < len(names) and names[j] in d]
            es = [(ks[x], k.tag_sym("v%d_%s" % (i, x)), "1") for x in order]
            req = some(k.hset([(ks[names[j]], "1") for j in p if names[j] in required[i]])) if required[i] is not None else NONE
            items.append((k.tag("o%d" % i, k.obj(es, req), nullable=False), "1"))
        for x in conflict:
            vs = [k.tag_sym("v%d_%s" % (i, x)) for i, d in enumerate(decl) if x in d]
            r = uc(k, *vs)
            k.decide(k.e.mkproj(k.fld(r, DT) if r[0] != "adt" else r[3][DT], ("f", ATOM, 0)), A_JSON)
        return k.e.deepderef(k.st, k.call(UC, ("adt", "jst::ast::Union", 0, (k.seq(items),))))
    return mk


for _d in (("abc", "abc"), ("ab", "bc"), ("a", "b"), ("abc", "b"), ("ab", "ab", "c"), ("a", "ab", "abc")):
    for _r in ((None,) * len(_d), _d, tuple(x[:1] for x in _d), (_d[0],) + (None,) * (len(_d) - 1)):
        _n = len(set("".join(_d)))
        CASES.append(Case("P", "merged objects %s required=%s" % (" ".join(_d), _r), perm_case(_n, uc_perm(_d, _r))))
        if len(_d) == 2:
            _c = sorted(set(_d[0]) & set(_d[1]))
            for _x in range(1, len(_c) + 1):
                CASES.append(Case("P", "merged objects %s required=%s conflict in %s" % (" ".join(_d), _r, "".join(_c[:_x])), perm_case(_n, uc_perm(_d, _r, _c[:_x]))))


# reading
def r_perm(add, pat, props):
    def mk(k, p):
        reader(k)
        names = ["x1", "x2", "x3"]
        o = dict(required=NONE, additional_properties=addp(k, "schema" if add else "none", child(k, "add")), properties=NONE, pattern_properties=NONE)
        if pat:
            m = pmap_of(k, [(lit(names[i]), child(k, names[i]), "1") for i in p])
            o["pattern_properties"] = some(m if m[1] == "hash" else pmap_of(k, [(lit(n), child(k, n), "1") for n in names]))
        if props:
            o["properties"] = some(k.hmap([(lit(names[i]), child(k, names[i]), "1") for i in p]))
        s = r_schema(k, jstring(k, "object"), None, obj=o, one_of=NONE)
        return k.e.deepderef(k.st, k.call(R_FN, s, k.ctx))
    return mk


for _a in (0, 1):
    CASES.append(Case("P", "patternProperties%s" % (" and additionalProperties" if _a else ""), perm_case(3, r_perm(_a, 1, 0))))
CASES.append(Case("P", "properties", perm_case(3, r_perm(0, 0, 1))))
