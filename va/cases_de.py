"""Stage K: which keyword of a schema document is read into which part of the schema, and what is refused."""
from .cases import *
from .cases import CASES, Case, JT
from .de import dmap, doc, impl_of, de
from . import de as D

# keyword -> part of the structure
OBJ, ARR = ("properties", "additionalProperties", "patternProperties", "required"), ("items", "additionalItems", "minItems", "maxItems")
PARTS = {"type": "data_type", "format": "format", "description": "description", "title": "title", "oneOf": "one_of", "allOf": "all_of",
         "properties": "object.properties", "additionalProperties": "object.additional_properties", "patternProperties": "object.pattern_properties", "required": "object.required",
         "items": "array.items", "additionalItems": "array.additional_items", "minItems": "array.min_items", "maxItems": "array.max_items"}
META = "mozPipelineMetadata"
OTHER = ("sym", "OTHER KEYWORD")
ANYDOC = {k: doc("any", lit(k)) for k in PARTS}
NULLDOC = doc("null")


def read_doc(k, d):
    """what the schema structure is after reading document d: Ok(structure) or Err"""
    f = impl_of(k.e, JT)
    if f is None:
        raise Missing("Deserialize for " + JT)
    k.e.de_leaf = None if d[1] == "doc:map" else JT

    def rule(eng, st, t):
        if t[0] == "app" and t[1] == "eq" and OTHER in t[2]:
            o = [str_const(x) for x in t[2] if x != OTHER]
            return False if o and o[0] in PARTS else None
        return None
    k.sc.rules.append(rule)
    k.e.root_log.append((f["id"], (d,), dict(k.sc.facts)))
    k.e.de_leaf = JT
    return k.e.deepderef(k.st, k.e.run(f, [de(d)], k.st))


def at(k, v, path):
    for p in path.split("."):
        v = k.get(v, p)
    return v


def value_is(k, got, d):
    """got is the value read from document d"""
    if got[0] == "adt" and got[1] == OPT and got[2] == 1:
        got = got[3][0]
    return got == ("app", "read", (d,)) or got[0] == "app" and got[1] == "read" and got[2] == (d,)


def structure(k, got, given, others=()):
    """given: keyword -> document or ("is", expected value)"""
    if got[0] != "adt" or got[1] != RES:
        return [Diff(("schema",), got, ("adt", RES, 0, (ANY,)))]
    if got[2] == 1:
        return [Diff(("schema",), got, ("adt", RES, 0, (ANY,)))]
    t = got[3][0]
    out = []
    for kw, part in PARTS.items():
        v = at(k, t, part)
        d = given.get(kw)
        if d is None:
            want = k.variant(JV, "Null") if kw == "type" else NONE
            if v != want:
                out.append(Diff(("keyword " + kw,), v, want))
        elif d[0] == "is":
            out += diff(k, v, d[1], ("keyword " + kw,))
        elif not value_is(k, v, d):
            out.append(Diff(("keyword " + kw,), v, ("app", "the value of " + kw, (d,))))
    x = at(k, t, "extra")
    want = ("app", "the other keywords", tuple(others))
    if x != want and not (x[0] == "app" and x[1] == want[1] and set(x[2]) == set(others)):
        out.append(Diff(("the other keywords",), x, want))
    return out


def kw_case(name, entries, given=None, others=()):
    def run(k):
        got = read_doc(k, dmap(*entries))
        g = given(k) if callable(given) else dict(entries) if given is None else given
        return structure(k, got, {a: b for a, b in g.items() if a in PARTS}, others)
    CASES.append(Case("K", name, run))


def refused(name, d):
    def run(k):
        try:
            got = read_doc(k, d)
        except Diverge:
            return []
        return [] if got[0] == "adt" and got[1] == RES and got[2] == 1 else [Diff(("schema",), got, ("app", "refused", ()))]
    CASES.append(Case("K", "refused: " + name, run))


kw_case("the empty schema", [])
for _k in PARTS:
    kw_case("only " + _k, [(_k, ANYDOC[_k])])
    kw_case("only %s, beside another keyword" % _k, [(OTHER, doc("any", lit("other"))), (_k, ANYDOC[_k])], others=(OTHER,))
    kw_case("all but " + _k, [(x, ANYDOC[x]) for x in PARTS if x != _k])
    if _k != "type":
        kw_case("%s: null" % _k, [(_k, NULLDOC)], {})
kw_case("any other keyword", [(OTHER, doc("any", lit("other")))], {}, (OTHER,))
_m = doc("any", lit(META))
kw_case("all keywords", [(x, ANYDOC[x]) for x in PARTS])
kw_case("all keywords, in the opposite order", [(x, ANYDOC[x]) for x in reversed(list(PARTS))])
kw_case("all keywords and the metadata", [(META, _m)] + [(x, ANYDOC[x]) for x in PARTS] + [(OTHER, doc("any", lit("other")))], others=(lit(META), OTHER))
for _n, _f in (("date-time", "DateTime"), ("bytes", "Bytes"), ("json", "Json"), (None, "Other")):
    _s = lit(_n) if _n else ("sym", "OTHER FORMAT")

    def _run(k, s=_s, f=_f):
        def rule(eng, st, t):
            if t[0] == "app" and t[1] == "eq" and s in t[2] and s[0] == "sym":
                o = [str_const(x) for x in t[2] if x != s]
                return False if o and o[0] in ("date-time", "bytes", "json") else None
            return None
        k.sc.rules.append(rule)
        got = read_doc(k, dmap(("format", doc("str", s))))
        return structure(k, got, {"format": ("is", some(k.variant("jst::jsonschema::Format", f)))})
    CASES.append(Case("K", "format " + (_n or "that is not known"), _run))
for _n in ("description", "title"):
    kw_case(_n + " is a text", [(_n, doc("str", ("sym", "TEXT")))], {_n: ("is", some(("sym", "TEXT")))})
_sub, _lst, _bool = doc("map", ("tup", (lit("a"), doc("any", lit("a"))))), doc("seq", doc("any", lit("a"))), doc("bool", ("sym", "B"))
for _n in ("additionalProperties", "additionalItems"):
    kw_case(_n + " is a flag", [(_n, _bool)], lambda k, n=_n: {n: ("is", some(k.variant("jst::jsonschema::AdditionalProperties", "Bool", ("app", "read", (_bool,)))))})
    kw_case(_n + " is a schema", [(_n, _sub)], lambda k, n=_n: {n: ("is", some(k.variant("jst::jsonschema::AdditionalProperties", "Object", ("app", "read", (_sub,)))))})
kw_case("items is a schema", [("items", _sub)], lambda k: {"items": ("is", some(k.variant("jst::jsonschema::ArrayType", "Tag", ("app", "read", (_sub,)))))})
kw_case("items is a list", [("items", _lst)], lambda k: {"items": ("is", some(k.variant("jst::jsonschema::ArrayType", "TagTuple", ("app", "read", (_lst,)))))})
_big = doc("num", ("sym", "A LARGE NUMBER"))
for _n in ("minItems", "maxItems"):
    kw_case(_n + " is above 2^32", [(_n, _big)])
_num, _str = doc("num", ("sym", "N")), doc("str", ("sym", "TEXT"))
KINDS = {"a flag": _bool, "a number": _num, "a text": _str, "a list": _lst, "an object": _sub}
ALLOWED = {"type": tuple(KINDS), "format": ("a text", "an object"), "description": ("a text",), "title": ("a text",), "oneOf": ("a list",), "allOf": ("a list",), "properties": ("an object",),
           "additionalProperties": ("a flag", "an object"), "patternProperties": ("an object",), "required": ("a list",), "items": ("an object", "a list"),
           "additionalItems": ("a flag", "an object"), "minItems": ("a number",), "maxItems": ("a number",)}
for _k, _a in ALLOWED.items():
    for _n, _d in KINDS.items():
        if _n not in _a:
            refused("%s is %s" % (_k, _n), dmap((_k, _d)))
for _n, _d in KINDS.items():
    if _n != "an object":
        refused("the schema is " + _n, _d)
refused("the schema is null", NULLDOC)
