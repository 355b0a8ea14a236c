"""The serde data model: derived Serialize implementations followed to an abstract JSON value.

A serializer is ("adt", "@ser", 0, ()) or serde's FlatMapSerializer around the state of an outer map;
the state of an open struct, map or sequence is ("adt", "@obj" | "@flat" | "@arr", 0, (contents,))."""
from .values import *
from .models import model, jvar, is_coll, JVALUE, lit_text

PLAIN = ("adt", "@ser", 0, ())


def J(eng, name, *fs):
    return ("adt", JVALUE, jvar(eng, name), tuple(fs))


def jobj(eng, entries):
    return J(eng, "Object", ("map", "btree", tuple(entries)))


def put(entries, key, val):
    """a map entry, replacing an earlier one of the same key"""
    out = [e for e in entries if e[0] != key]
    return tuple(out) + ((key, val, "1", ("sym", "src:" + show(key))),)


def impl_of(eng, path):
    """the generated (or written) Serialize implementation of a local type"""
    memo = eng.p.__dict__.setdefault("_seri", {})
    if path not in memo:
        memo[path] = None
        for n, f in eng.p.fns.items():
            if not f["local"] or f["closure"] or not f["path"].endswith("::serialize"):
                continue
            if "<impl serde::ser::Serialize for %s>::serialize" % path in f["path"] and f["path"].endswith(" for %s>::serialize" % path) or \
                    f["path"].startswith("<%s as serde::ser::Serialize>" % path) or f["path"].startswith("<" + path + "<") and f["path"].endswith(" as serde::ser::Serialize>::serialize"):
                memo[path] = f
    return memo[path]


def json_of(eng, st, v, ty, site):
    """the JSON of a value, or None when serialising it fails"""
    v = eng.deepderef(st, v)
    ty = eng.p.peel(ty) if ty is not None else None
    t = eng.p.types[ty] if ty is not None else {"k": "?", "s": "?"}
    if v[0] == "phi":
        rs = [json_of(eng, st, x, ty, site) for x in v[1]]
        return mkphi(rs) if all(r is not None for r in rs) else top("json")
    if v[0] == "top":
        return v
    if v[0] == "str" or t["k"] == "str" or is_coll(t, "String"):
        return J(eng, "String", v)
    if v[0] == "adt" and v[1] == JVALUE or t["k"] == "adt" and t["path"] == JVALUE:
        return v
    if v[0] == "adt" and v[1] == OPT:
        return J(eng, "Null") if v[2] == 0 else json_of(eng, st, v[3][0], t["args"][0] if t["k"] == "adt" and t["args"] else None, site)
    if t["k"] == "bool" or v[0] == "c" and v[1] == "bool":
        return J(eng, "Bool", v)
    if t["k"] in ("int", "uint") or v[0] == "c":
        return J(eng, "Number", eng.app("number", [v]))
    if v[0] == "seq" or is_coll(t, "Vec") or t["k"] in ("slice", "array"):
        s = v if v[0] == "seq" else eng.as_seq(v)
        et = t["args"][0] if t.get("args") else None
        if s is None:
            return eng.app("json", [v])
        return J(eng, "Array", ("seq", tuple(map_all(s[1], lambda x: json_of(eng, st, x, et, site)))))
    if v[0] == "adt" and v[1] != OPT:
        path = v[1] if t["k"] != "adt" else t["path"]
        f = impl_of(eng, path)
        if f is None:
            return None
        r = eng.deepderef(st, eng.run(f, [v, PLAIN], st))
        if r[0] == "adt" and r[1] == RES and r[2] == 0:
            return r[3][0]
        return top("serialize") if r[0] != "adt" else None
    return eng.app("json", [v])


def map_all(segs, f):
    out = []
    for s in segs:
        out.append(("bag", tuple(map_all(s[1], f)), s[2]) if s[0] == "bag" else map_seg(s, f))
    return out


def is_flat(S):
    return S[0] == "adt" and S[1].endswith("FlatMapSerializer")


def deliver(eng, st, j, S):
    """hands a finished JSON value to a serializer"""
    if j is None:
        return err(("app", "serialize error", ()))
    if not is_flat(S):
        return ok(j)
    if j[0] == "phi":
        state = eng.deref(st, S[3][0])
        alts = []
        for a in j[1]:
            if a[0] != "adt" or a[2] != jvar(eng, "Object"):
                return ok(eng_top(eng, st, S))
            alts.append(("adt", "@obj", 0, (merged(state[3][0], a[3][0]),)))
        eng.store(st, S[3][0], mkphi(alts))
        return ok(UNIT)
    if j[0] != "adt" or j[1] != JVALUE or j[2] != jvar(eng, "Object"):
        if j[0] == "adt":
            return err(("app", "cannot flatten", ()))
        state = eng.deref(st, S[3][0])
        m = state[3][0]
        eng.store(st, S[3][0], ("adt", "@obj", 0, (("map", "btree", m[2] + ((("app", "fields of", (j,)), UNIT, "1", ("sym", "flat")),)),)))
        return ok(UNIT)
    state = eng.deref(st, S[3][0])
    eng.store(st, S[3][0], ("adt", "@obj", 0, (merged(state[3][0], j[3][0]),)))
    return ok(UNIT)


def eng_top(eng, st, S):
    eng.store(st, S[3][0], top("flattened"))
    return UNIT


def merged(a, b):
    es = a[2]
    for e in b[2]:
        es = put(es, e[0], e[1])
    return ("map", "btree", es)


def arg_ty(c, i):
    t = c.get("targs") or []
    return t[i] if i < len(t) else None


@model("serde::ser::Serialize::serialize")
def ser_serialize(eng, st, c, args, site, dty):
    S = eng.deref(st, args[1])
    if not (S == PLAIN or is_flat(S)):
        return NotImplemented
    return deliver(eng, st, json_of(eng, st, args[0], arg_ty(c, 0), site), S)


@model("serde::ser::Serializer::serialize_struct", "serde::ser::Serializer::serialize_map")
def ser_open(eng, st, c, args, site, dty):
    S = eng.deref(st, args[0])
    if is_flat(S):
        return ok(("adt", "@flat", 0, (S[3][0],)))
    return ok(("adt", "@obj", 0, (("map", "btree", ()),)))


@model("serde::ser::Serializer::serialize_seq", "serde::ser::Serializer::serialize_tuple")
def ser_seq(eng, st, c, args, site, dty):
    return ok(("adt", "@arr", 0, (EMPTY,)))


@model("serde::ser::Serializer::serialize_str", "serde::ser::Serializer::serialize_unit_variant", "serde::ser::Serializer::serialize_none", "serde::ser::Serializer::serialize_unit",
       "serde::ser::Serializer::serialize_bool", "serde::ser::Serializer::serialize_some", "serde::ser::Serializer::collect_str")
def ser_leaf(eng, st, c, args, site, dty):
    n = c["name"].rsplit("::", 1)[-1]
    S = eng.deref(st, args[0])
    j = None
    if n == "serialize_str":
        j = J(eng, "String", eng.deepderef(st, args[1]))
    elif n == "serialize_unit_variant":
        j = J(eng, "String", eng.deepderef(st, args[3]))
    elif n in ("serialize_none", "serialize_unit"):
        j = J(eng, "Null")
    elif n == "serialize_bool":
        j = J(eng, "Bool", eng.deepderef(st, args[1]))
    elif n == "serialize_some":
        j = json_of(eng, st, args[1], arg_ty(c, 1), site)
    else:
        return top(n)
    return deliver(eng, st, j, S)


@model("serde::ser::Serializer::serialize_newtype_struct", "serde::ser::Serializer::serialize_newtype_variant")
def ser_newtype(eng, st, c, args, site, dty):
    S = eng.deref(st, args[0])
    j = json_of(eng, st, args[-1], arg_ty(c, 1), site)
    if c["name"].endswith("variant") and j is not None:
        j = jobj(eng, put((), eng.deepderef(st, args[3]), j))
    return deliver(eng, st, j, S)


@model("serde::ser::SerializeStruct::serialize_field", "serde::ser::SerializeMap::serialize_entry", "serde::ser::SerializeStructVariant::serialize_field")
def ser_field(eng, st, c, args, site, dty):
    key = eng.deepderef(st, args[1])
    entry = c["name"].endswith("entry")
    j = json_of(eng, st, args[2], arg_ty(c, 2 if entry else 1), site)
    if j is None:
        return err(("app", "serialize error", ()))
    ref = args[0]
    s = eng.deref(st, ref)
    while s[0] == "adt" and s[1] == "@flat":
        ref = s[3][0]
        s = eng.deref(st, ref)
    if s[0] != "adt" or s[1] != "@obj":
        eng.store(st, ref, top("serializer state"))
        return ok(UNIT)
    eng.store(st, ref, ("adt", "@obj", 0, (("map", "btree", put(s[3][0][2], key, j)),)))
    return ok(UNIT)


@model("serde::ser::SerializeStruct::skip_field")
def ser_skip(eng, st, c, args, site, dty):
    return ok(UNIT)


@model("serde::ser::SerializeSeq::serialize_element", "serde::ser::SerializeTuple::serialize_element")
def ser_elem(eng, st, c, args, site, dty):
    j = json_of(eng, st, args[1], arg_ty(c, 1), site)
    if j is None:
        return err(("app", "serialize error", ()))
    s = eng.deref(st, args[0])
    if s[0] != "adt" or s[1] != "@arr":
        eng.store(st, args[0], top("serializer state"))
        return ok(UNIT)
    # the element is appended as to a vector
    from .models import T
    cell = ("sercell", site, len(st.cells))
    st.cells[cell] = s[3][0]
    T["Vec::push"](eng, st, c, [("ref", cell, ()), j], site, None)
    eng.store(st, args[0], ("adt", "@arr", 0, (st.cells.pop(cell),)))
    return ok(UNIT)


@model("serde::ser::SerializeStruct::end", "serde::ser::SerializeMap::end", "serde::ser::SerializeSeq::end", "serde::ser::SerializeTuple::end", "serde::ser::SerializeStructVariant::end")
def ser_end(eng, st, c, args, site, dty):
    s = eng.deref(st, args[0])

    def one(s):
        if s[0] != "adt":
            return top("serializer state")
        if s[1] == "@flat":
            return UNIT
        if s[1] == "@arr":
            return J(eng, "Array", s[3][0])
        return J(eng, "Object", s[3][0])
    return ok(pmap(s, one))


@model("serde::ser::Serializer::collect_seq")
def ser_collect_seq(eng, st, c, args, site, dty):
    from .models import T
    it = eng.deepderef(st, args[1])
    r = it if it[0] in ("seq", "iter") else None
    if r is None:
        return top("collect_seq")
    ety = None
    return deliver(eng, st, J(eng, "Array", ("seq", tuple(map_all(r[1], lambda x: json_of(eng, st, x, ety, site))))), eng.deref(st, args[0]))


@model("serde::__private::ser::serialize_tagged_newtype")
def ser_tagged(eng, st, c, args, site, dty):
    S = eng.deref(st, args[0])
    tag, name = eng.deepderef(st, args[3]), eng.deepderef(st, args[4])
    j = json_of(eng, st, args[5], arg_ty(c, 1), site)

    def one(j):
        if j is None:
            return None
        es = put((), tag, J(eng, "String", name))
        if j[0] == "adt" and j[1] == JVALUE and j[2] == jvar(eng, "Object"):
            for e in j[3][0][2]:
                es = put(es, e[0], e[1])
            return jobj(eng, es)
        if j[0] == "adt":
            return None
        return jobj(eng, es + ((("app", "fields of", (j,)), UNIT, "1", ("sym", "flat")),))
    return deliver(eng, st, pmap(j, one) if j is not None else None, S)
