"""Stage Z: what the generated (and hand-written) serialisers make of every output node."""
from .cases import *
from .cases import CASES, Case, AV, BQ, JV
from . import ser

PRIM, CPLX = "jst::avro::Primitive", "jst::avro::Complex"
BATOM, BMODE, BTYPE, BREC, BSCH = "jst::bigquery::Atom", "jst::bigquery::Mode", "jst::bigquery::Type", "jst::bigquery::Record", "jst::bigquery::Schema"
STR = "alloc::string::String"


def js(k, s):
    return k.variant(JV, "String", lit(s) if isinstance(s, str) else s)


def jo(k, **kw):
    return k.variant(JV, "Object", ("map", "btree", k.hmap([(lit(n.rstrip("_")), v, "1") for n, v in kw.items()])[2]))


def z_case(mk):
    def run(k):
        v, want = mk(k)
        got = ser.json_of(k.e, k.st, v, None, ("serialise", 0))
        if got is None:
            got = ("app", "a serialisation error", ())
        return diff(k, got, want)
    return run


def z(name):
    def d(f):
        CASES.append(Case("Z", name, z_case(f)))
        return f
    return d


def jterm(k, c):
    """the JSON of an opaque part"""
    return k.e.app("json", [c])


AVPRIM = {"Null": "null", "Boolean": "boolean", "Int": "int", "Long": "long", "Float": "float", "Double": "double", "Bytes": "bytes", "String": "string"}
for _n, _j in AVPRIM.items():
    @z("Avro type " + _j)
    def _(k, n=_n, j=_j):
        return k.variant(PRIM, n), jo(k, type=js(k, j))

    @z("Avro type %s in a union" % _j)
    def _(k, n=_n, j=_j):
        q = k.sym("q", AV)
        return k.variant(AV, "Union", ("seq", (("1", k.variant(AV, "Primitive", k.variant(PRIM, n))), ("1", q)))), k.variant(JV, "Array", ("seq", (("1", jo(k, type=js(k, j))), ("1", jterm(k, q)))))


@z("Avro union")
def _(k):
    p, q = k.sym("p", AV), k.sym("q", AV)
    return k.variant(AV, "Union", k.seq([(p, "+"), (q, "1")])), k.variant(JV, "Array", ("seq", k.segs(jterm(k, p), "+", False) + (("1", jterm(k, q)),)))


def common(k, ns, doc, al):
    S = lambda n: k.sym(n, STR)  # noqa: E731
    return k.struct("jst::avro::CommonAttributes", None, name=S("nm"), namespace=some(S("ns")) if ns else NONE, doc=some(S("doc")) if doc else NONE,
                    aliases=some(k.seq([(S("al"), "+")])) if al else NONE)


def common_json(k, ns, doc, al):
    S = lambda n: k.sym(n, STR)  # noqa: E731
    r = dict(name=js(k, S("nm")))
    if ns:
        r["namespace"] = js(k, S("ns"))
    if doc:
        r["doc"] = js(k, S("doc"))
    if al:
        r["aliases"] = k.variant(JV, "Array", ("seq", k.segs(js(k, S("al")), "+", False)))
    return r


for _i in range(8):
    @z("Avro record namespace:%d doc:%d aliases:%d" % (_i & 1, _i >> 1 & 1, _i >> 2))
    def _(k, c=(_i & 1, _i >> 1 & 1, _i >> 2)):
        f, g = k.sym("f", "jst::avro::Field"), k.sym("g", "jst::avro::Field")
        v = k.variant(AV, "Complex", k.variant(CPLX, "Record", k.struct("jst::avro::Record", None, common=common(k, *c), fields=k.seq([(f, "+"), (g, "1")]))))
        return v, jo(k, type=js(k, "record"), fields=k.variant(JV, "Array", ("seq", k.segs(jterm(k, f), "+", False) + (("1", jterm(k, g)),))), **common_json(k, *c))

    @z("Avro enum namespace:%d doc:%d aliases:%d" % (_i & 1, _i >> 1 & 1, _i >> 2))
    def _(k, c=(_i & 1, _i >> 1 & 1, _i >> 2)):
        s = k.sym("s", STR)
        v = k.variant(AV, "Complex", k.variant(CPLX, "Enum", k.struct("jst::avro::Enum", None, common=common(k, *c), symbols=k.seq([(s, "+")]))))
        return v, jo(k, type=js(k, "enum"), symbols=k.variant(JV, "Array", ("seq", k.segs(js(k, s), "+", False))), **common_json(k, *c))

for _n, _f, _j in (("Array", "items", "array"), ("Map", "values", "map")):
    @z("Avro " + _j)
    def _(k, n=_n, f=_f, j=_j):
        t = k.sym("t", AV)
        v = k.variant(AV, "Complex", k.variant(CPLX, n, k.struct("jst::avro::" + n, None, **{f: t})))
        return v, jo(k, type=js(k, j), **{f: jterm(k, t)})

for _d in (0, 1):
    for _f in (0, 1, 2):
        @z("Avro field doc:%d default:%s" % (_d, ("absent", "null", "other")[_f]))
        def _(k, d=_d, f=_f):
            t, nm, doc, df = k.sym("t", AV), k.sym("nm", STR), k.sym("doc", STR), k.sym("df", JV)
            dv = (None, k.variant(JV, "Null"), df)[f]
            v = k.struct("jst::avro::Field", None, name=nm, doc=some(doc) if d else NONE, data_type=t, default=NONE if dv is None else some(dv))
            w = dict(name=js(k, nm), type=jterm(k, t))
            if d:
                w["doc"] = js(k, doc)
            if dv is not None:
                w["default"] = dv
            return v, jo(k, **w)


BQTYPES = {"Int64": "INT64", "Numeric": "NUMERIC", "Float64": "FLOAT64", "Bool": "BOOL", "String": "STRING", "Bytes": "BYTES", "Date": "DATE", "Datetime": "DATETIME",
           "Geography": "GEOGRAPHY", "Time": "TIME", "Timestamp": "TIMESTAMP", "Json": "JSON"}
MODES_ = {"Nullable": "NULLABLE", "Required": "REQUIRED", "Repeated": "REPEATED"}


def bq_col(k, typ, mode, name, desc):
    nm, de = k.sym("nm", STR), k.sym("desc", STR)
    v = k.struct(BQ, None, name=some(nm) if name else NONE, description=some(de) if desc else NONE, data_type=typ, mode=k.variant(BMODE, mode))
    w = dict(mode=js(k, MODES_[mode]))
    if name:
        w["name"] = js(k, nm)
    if desc:
        w["description"] = js(k, de)
    return v, w


def named(k, cols, names):
    """the columns of a record carry the names they are listed under"""
    known = dict(zip(cols, names))
    k.sc.projs.append(lambda eng, base, step: some(known[base]) if step == ("f", None, 0) and base in known else None)
    return cols


for _n, _j in BQTYPES.items():
    for _m in MODES_:
        for _i in range(4):
            @z("BigQuery column %s %s name:%d description:%d" % (_j, MODES_[_m], _i & 1, _i >> 1))
            def _(k, n=_n, j=_j, m=_m, i=_i):
                v, w = bq_col(k, k.variant(BTYPE, "Atom", k.variant(BATOM, n)), m, i & 1, i >> 1)
                return v, jo(k, type=js(k, j), **w)

for _m in MODES_:
    for _s in ("", "1", "+", "1+", "11"):
        for _i in range(4):
            @z("BigQuery record of %s %s name:%d description:%d" % (_s or "nothing", MODES_[_m], _i & 1, _i >> 1))
            def _(k, s=_s, m=_m, i=_i):
                names = k.keys(*["k%d" % x for x in range(len(s))]) if s else []
                cols = named(k, [k.sym("col%d" % x, BQ) for x in range(len(s))], names)
                v, w = bq_col(k, bqr(k, list(zip(names, cols, s))), m, i & 1, i >> 1)
                fs = ("sorted", tuple((a, jterm(k, c)) if a == "1" else (a, None, jterm(k, c), True) for a, c in zip(s, cols)), tuple(names))
                return v, jo(k, type=js(k, "RECORD"), fields=k.variant(JV, "Array", fs), **w)

for _g in (("b", "a"), ("a", "A"), ("ab", "aB", "Ab"), ("a", "a1", "a_"), ("_1", "_2"), ("f10_", "f2_")):
    @z("BigQuery record with the columns " + " ".join(_g))
    def _(k, g=_g):
        cols = named(k, [k.sym("col:" + x, BQ) for x in g], [lit(x) for x in g])
        v, w = bq_col(k, bqr(k, [(lit(x), c, "1") for x, c in zip(g, cols)]), "Required", 1, 0)
        o = sorted(range(len(g)), key=lambda x: g[x].encode())
        return v, jo(k, type=js(k, "RECORD"), fields=k.variant(JV, "Array", ("seq", tuple(("1", jterm(k, cols[x])) for x in o))), **w)


@z("BigQuery column list")
def _(k):
    c, d = k.sym("c", BQ), k.sym("d", BQ)
    return k.variant(BSCH, "Root", k.seq([(c, "+"), (d, "1")])), k.variant(JV, "Array", ("seq", k.segs(jterm(k, c), "+", False) + (("1", jterm(k, d)),)))
