"""The serde data model, reading: derived Deserialize implementations followed over an abstract document.

A document is ("app", "doc:<kind>", parts): map (pairs), seq, str, bool, num, null, any.
A deserializer is ("adt", "@de", 0, (document,)) or serde's FlatMapDeserializer around the collected entries;
access to the entries of a map is ("adt", "@access", 0, (entries left, value pending))."""
from .values import *
from . import models
from .models import model, deser_fns, is_coll, JVALUE, lookup

FLAT = "FlatMapDeserializer"


def doc(kind, *parts):
    return ("app", "doc:" + kind, tuple(parts))


def dmap(*entries):
    return doc("map", *(("tup", (lit(k) if isinstance(k, str) else k, v)) for k, v in entries))


def kind_of(d):
    return d[1][4:] if d[0] == "app" and d[1].startswith("doc:") else None


def bad(why, *xs):
    return err(("app", "cannot read: " + why, tuple(xs)))


def de(d):
    return ("adt", "@de", 0, (d,))


def impl_of(eng, path):
    """the Deserialize implementation of a local type"""
    memo = eng.p.__dict__.setdefault("_dei", {})
    if path not in memo:
        memo[path] = None
        for n, f in eng.p.fns.items():
            if f["local"] and not f["closure"] and f["path"].endswith(
                    ("<impl serde::de::Deserialize<'de> for %s>::deserialize" % path, "<%s as serde::de::Deserialize<'de>>::deserialize" % path)):
                memo[path] = f
    return memo[path]


def visitor_fn(eng, vis, method):
    """vis: the type name of a visitor"""
    base = vis.replace("<'_>", "<'de>")
    for n, f in eng.p.fns.items():
        if f["local"] and n.startswith("<" + base + " as serde::de::Visitor<") and ">::%s" % method in n and n.split(">::" + method, 1)[1][:2] in ("::", "", " ["):
            return f
    return None


def res_map(v, fn):
    """fn on the value of every Ok"""
    def one(a):
        if a[0] == "adt" and a[1] == RES:
            return ok(fn(a[3][0])) if a[2] == 0 else a
        return a if a[0] == "top" else top("result")
    return pmap(v, one)


def opaque(d):
    return kind_of(d) == "any"


def read(eng, st, ty, d):
    """Result of reading a value of type ty from document d"""
    t = eng.p.types[ty] if isinstance(ty, int) else ty
    k = kind_of(d)
    if k is None:
        return top("document")
    mark = ok(eng.app("read", [d], ty if isinstance(ty, int) else None))
    s = t["s"]
    if t["k"] == "adt" and t["path"] == OPT:
        if k == "null":
            return ok(NONE)
        return mark if k == "any" else res_map(read(eng, st, t["args"][0], d), some)
    if t["k"] == "adt" and t["path"] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
        return read(eng, st, t["args"][0], d)
    if t["k"] == "adt" and (t["path"] == JVALUE or t["path"].endswith("::Content") or t["path"].endswith("::IgnoredAny")):
        return mark if t["path"] == JVALUE else ok(d)
    if t["k"] == "bool":
        return mark if k in ("bool", "any") else bad(s, d)
    if t["k"] in ("int", "uint") and k == "num" and d[2][0] == ("sym", "A LARGE NUMBER") and any(x in s for x in ("8", "16", "32")):
        return bad(s + " (it is above 2^32)", d)
    if t["k"] in ("int", "uint", "float"):
        return mark if k in ("num", "any") else bad(s, d)
    if t["k"] == "str" or is_coll(t, "String") or s == "alloc::string::String":
        return ok(d[2][0]) if k == "str" else mark if k == "any" else bad(s, d)
    if is_coll(t, "Vec") or s.startswith("alloc::vec::Vec<") or "Set<" in s.split(",")[0]:
        return mark if k in ("seq", "any") else bad(s, d)
    if t["k"] == "adt" and t["path"].endswith("Map"):
        return mark if k in ("map", "any") else bad(s, d)
    if t["k"] == "adt" and t.get("local"):
        if eng.de_leaf == t["path"]:
            return mark if k in ("map", "any") else bad(s, d)
        if k == "any" and "__DeserializeWith" not in t["path"]:
            return mark
        f = impl_of(eng, t["path"])
        if f is not None:
            return eng.run(f, [de(d)], st)
    return top("reading " + s)


def fields_of(eng, st, v):
    """the constant strings of a slice"""
    s = eng.as_seq(eng.deepderef(st, v))
    if s is None or any(x[0] != "1" for x in s[1]):
        return None
    r = [str_const(x[1]) for x in s[1]]
    return None if None in r else r


def collected(eng, st, d):
    """(reference, entries) of a FlatMapDeserializer; entries: Option of (key, document)"""
    r = d[3][0]
    v = eng.deref(st, r)
    s = eng.as_seq(v)
    if s is None or any(x[0] != "1" or x[1][0] != "adt" or x[1][1] != OPT for x in s[1]):
        return None, None
    return r, [x[1] for x in s[1]]


def key_text(eng, st, v):
    """the text of a collected key (serde's Content)"""
    v = eng.deepderef(st, v)
    return v[3][0] if v[0] == "adt" and v[3] else v


def access(entries):
    return ("adt", "@access", 0, (("tup", tuple(entries)), NONE))


def is_flat(d):
    return d[0] == "adt" and d[1].endswith(FLAT)


@model("serde::de::Deserialize::deserialize", "serde_core::de::Deserialize::deserialize")
def deserialize(eng, st, c, args, site, dty):
    d = eng.deref(st, args[0])
    ty = c["targs"][0]
    if d[0] == "adt" and d[1] == "@de":
        return read(eng, st, ty, d[3][0])
    if is_flat(d):
        t = eng.p.types[ty]
        if t["k"] == "adt" and t.get("local"):
            f = impl_of(eng, t["path"])
            if f is not None:
                return eng.run(f, [d], st)
        if t["k"] == "adt" and t["path"].endswith("Map"):
            r, es = collected(eng, st, d)
            if es is not None:
                return ok(("app", "the other keywords", tuple(key_text(eng, st, e[3][0][1][0]) for e in es if e[2] == 1)))
        return top("flattened " + t["s"])
    x = eng.deepderef(st, args[0])
    bt = eng.ptype(x) if is_term(x) else None
    if x[0] == "adt" and x[1] == models.JVALUE or bt is not None and bt["k"] == "adt" and bt["path"] == models.JVALUE:
        return models.from_value(eng, st, dict(c, name="serde_json::value::from_value"), [x], site, dty)
    return NotImplemented


def visit(eng, st, vis, method, *args):
    f = visitor_fn(eng, vis, method)
    return eng.run(f, [UNIT] + list(args), st) if f is not None else None


def vis_name(eng, c, i):
    return eng.p.types[c["targs"][i]]["s"]


@model("serde::de::Deserializer::deserialize_struct", "serde::de::Deserializer::deserialize_map", "serde::de::Deserializer::deserialize_any")
def deserialize_map(eng, st, c, args, site, dty):
    d = eng.deref(st, args[0])
    vis = vis_name(eng, c, 1)
    struct = c["name"].endswith("struct")
    if d[0] == "adt" and d[1] == "@de":
        x = d[3][0]
        k = kind_of(x)
        if k == "map":
            r = visit(eng, st, vis, "visit_map", access(x[2]))
        elif k == "seq" and visitor_fn(eng, vis, "visit_seq"):
            return top("a structure from a list")
        elif k in (None, "any"):
            return top("an unknown document")
        else:
            return bad(k, x)
        return r if r is not None else bad("a map", x)
    if is_flat(d):
        r, es = collected(eng, st, d)
        if es is None:
            return top("collected")
        names = fields_of(eng, st, args[2]) if struct else None
        if struct and names is None:
            return top("field list")
        mine, left = [], []
        for e in es:
            if e[2] == 1:
                kx = key_text(eng, st, e[3][0][1][0])
                hit = True
                if names is not None:
                    hit = False
                    for n in names:
                        t = eng.truth(st, eng.app("eq", [kx, lit(n)])) if str_const(kx) is None else str_const(kx) == n
                        if t is None:
                            return top("a keyword that may be " + n)
                        hit = hit or t
                if hit:
                    mine.append(("tup", (kx, eng.deepderef(st, e[3][0][1][1]))))
                    if struct:
                        e = NONE
            left.append(("1", e))
        eng.store(st, r, ("seq", tuple(left)))
        x = visit(eng, st, vis, "visit_map", access(mine))
        return x if x is not None else bad("a map")
    return NotImplemented


@model("serde::de::Deserializer::deserialize_option")
def deserialize_option(eng, st, c, args, site, dty):
    return top("an optional part")


@model("serde::de::Deserializer::deserialize_enum")
def deserialize_enum(eng, st, c, args, site, dty):
    d = eng.deref(st, args[0])
    if d[0] != "adt" or d[1] != "@de":
        return NotImplemented
    x = d[3][0]
    vis = vis_name(eng, c, 1)
    if kind_of(x) == "str":
        f = visitor_fn(eng, vis.replace("__Visitor<'_>", "__FieldVisitor"), "visit_str")
        g = visitor_fn(eng, vis, "visit_enum")
        if f is None or g is None:
            return top("a variant")
        r = eng.run(f, [UNIT, x[2][0]], st)

        def one(a):
            if a[0] == "adt" and a[1] == RES and a[2] == 0:
                return eng.run(g, [UNIT, ("app", "enum access", (a[3][0],))], st)
            return bad("an unknown variant", x) if a[0] == "adt" and a[1] == RES else top("a variant")
        return pmap(r, one)
    return top("a variant") if kind_of(x) in ("any", "map", None) else bad("a variant", x)


def of_access(eng, st, ref):
    a = eng.deref(st, ref)
    return a if a[0] == "adt" and a[1] == "@access" else None


@model("serde::de::MapAccess::next_key", "serde::de::MapAccess::next_key_seed")
def next_key(eng, st, c, args, site, dty):
    a = of_access(eng, st, args[0])
    if a is None:
        return NotImplemented
    left = a[3][0][1]
    if not left:
        return ok(NONE)
    kx, d = left[0][1]
    eng.store(st, args[0], ("adt", "@access", 0, (("tup", left[1:]), some(d))))
    t = eng.p.types[c["targs"][1]]
    s = t["s"]
    if is_coll(t, "String"):
        return ok(some(kx))
    f = visitor_fn(eng, s[:-len("<'_>")] + "Visitor" if s.endswith("::__Field<'_>") else s + "Visitor", "visit_str")
    if f is None:
        return top("key of type " + s)
    return res_map(eng.run(f, [UNIT, kx], st), some)


@model("serde::de::MapAccess::next_value")
def next_value(eng, st, c, args, site, dty):
    a = of_access(eng, st, args[0])
    if a is None:
        return NotImplemented
    if a[3][1][0] != "adt" or a[3][1] == NONE:
        return top("value without a key")
    d = a[3][1][3][0]
    eng.store(st, args[0], ("adt", "@access", 0, (a[3][0], NONE)))
    return read(eng, st, c["targs"][1], d)


@model("serde::__private::de::missing_field")
def missing_field(eng, st, c, args, site, dty):
    t = eng.p.types[c["targs"][0]]
    if t["k"] == "adt" and t["path"] == OPT:
        return ok(NONE)
    return bad("missing", eng.deepderef(st, args[0]))


@model("serde::__private::de::content::ContentRefDeserializer::new", "serde::__private::de::content::ContentDeserializer::new")
def content_de(eng, st, c, args, site, dty):
    v = eng.deepderef(st, args[0])
    return de(v) if kind_of(v) else NotImplemented


def _error(eng, st, c, args, site, dty):
    return ("app", "cannot read: " + c["name"].rsplit("::", 1)[-1], tuple(eng.deepderef(st, a) for a in args))


for _n in ("duplicate_field", "missing_field", "invalid_length", "custom", "invalid_type", "invalid_value"):
    model("serde::de::Error::" + _n)(_error)


def _mapping(path, hit):
    """map / map_err inside generic code, where no instance of it was compiled"""
    def m(eng, st, c, args, site, dty):
        g = eng.p.fns.get(c.get("inst") or "")
        v = eng.deref(st, args[0])
        if g is not None and not g["generic"] or any(a[0] != "adt" or a[1] != path for a in phi_alts(v)) or len(phi_alts(v)) > 1:
            return NotImplemented
        return ("adt", path, v[2], (eng.call_value(st, args[1], [v[3][0]], site),)) if v[2] == hit else v
    return m


model("core::result::Result::map")(_mapping(RES, 0))
model("core::result::Result::map_err")(_mapping(RES, 1))
model("core::option::Option::map")(_mapping(OPT, 1))
