"""Which property a deviation from a decision table breaks."""
import re
from .spec import *

# stage -> what it analyses
STAGES = {
    "R": "reading a JSON Schema node (jst::jsonschema -> jst::ast)",
    "K": "which keyword of a schema document goes where (the Deserialize implementations of jst::jsonschema)",
    "uc": "resolving a union (jst::ast::Union::collapse)",
    "tc": "resolving the unions below a node (jst::ast::Tag::collapse)",
    "nul": "nullability inference (jst::ast::Tag::infer_nullability)",
    "np": "property names (jst::ast::Tag::normalize_properties)",
    "in": "names and namespaces (jst::ast::Tag::infer_name)",
    "EA": "Avro output of a node",
    "EB": "BigQuery output of a node",
    "S": "the BigQuery column list",
    "L": "the entry points convert_avro and convert_bigquery",
    "P": "the same input with its hash maps iterated in different orders",
    "M": "the command-line options, from the argument list to the conversion",
    "IO": "input, output and exit status of the program",
    "Z": "the serialisers of the output nodes",
    "X": "Avro and BigQuery output of the same node compared",
}

# property -> (stage, regular expression on the case name): what the check of the property runs
COVER = {
    "C01": [("P", ""), ("Z", "record"), ("EA", "object|map"), ("EB", "object|map"), ("S", ""), ("R", "^object")],
    "C02": [("L", "")],
    "C05": [("R", "^type|^unknown"), ("K", "")],
    "C06": [("R", "^object|^type (absent|list)|^array"), ("K", "")],
    "C07": [("K", "tems|^all|^the empty"), ("R", "^tuple|^array, tuple|^array without"), ("in", "^tuple"), ("EA", "^tuple"), ("EB", "^tuple"), ("uc", "single tuple"), ("tc", "^tuple"), ("nul", "^tuple")],
    "C08": [("uc", "^atoms|null|^empty|^mixed"), ("tc", "union")],
    "C09": [("uc", "object|map|array|mixed|tuple")],
    "C10": [("uc", ""), ("tc", ""), ("EA", ""), ("EB", ""), ("R", "oneOf:some|type list")],
    "C11": [("K", "required|^all|^the empty"), ("nul", "plain"), ("uc", ""), ("tc", ""), ("R", ""), ("EA", ""), ("EB", ""), ("np", "required"), ("in", "required")],
    "C12": [("nul", "force"), ("EA", ""), ("EB", ""), ("R", "")],
    "C13": [("np", ""), ("in", "^object")],
    "C14": [("np", ""), ("in", "^object")],
    "C15": [("in", ""), ("EA", ""), ("EB", "path|object|tuple|array|map"), ("R", "^object|^array|^type absent")],
    "C16": [("EA", "")],
    "C17": [("EA", "")],
    "C18": [("EB", "")],
    "C19": [("K", "description|title|^all|^the empty"), ("EB", ""), ("R", ""), ("tc", "")],
    "C20": [("S", "")],
    "C21": [("EA", ""), ("EB", ""), ("S", "cannot"), ("L", "rejected")],
    "C22": [("EA", ""), ("EB", "")],
    "C23": [("EB", ""), ("EA", "json"), ("L", ""), ("K", "other|metadata")],
    "C24": [("L", ""), ("R", ""), ("EA", ""), ("EB", ""), ("S", ""), ("in", ""), ("np", ""), ("nul", "")],
    "C26": [("K", ""), ("R", ""), ("uc", ""), ("tc", ""), ("np", ""), ("in", ""), ("nul", ""), ("EA", ""), ("EB", ""), ("S", ""), ("L", "")],
    "C27": [("X", "")],
    "C25": [("R", ""), ("uc", ""), ("tc", ""), ("np", ""), ("in", ""), ("nul", ""), ("EA", ""), ("EB", ""), ("S", ""), ("L", "")],
    "C28": [("Z", "")],
    "C03": [("M", "")],
    "C04": [("L", ""), ("IO", ""), ("M", "no options|FILE")],
}
COVER = {p: [(s, re.compile(r)) for s, r in v] for p, v in COVER.items()}


def covers(prop, case):
    return any(case.stage == s and r.search(case.name) for s, r in COVER.get(prop, ()))


def has(x, pred, depth=0):
    """some part of an abstract value satisfies pred"""
    if not isinstance(x, tuple) or depth > 14:
        return False
    if x and isinstance(x[0], str) and pred(x):
        return True
    return any(has(y, pred, depth + 1) for y in x if isinstance(y, tuple))


def is_abort(x):
    return x == ("app", "abort", ())


def status(x):
    if is_abort(x):
        return "abort"
    if isinstance(x, tuple) and x[0] == "adt" and x[1] == RES:
        return "ok" if x[2] == 0 else "err"
    return None


def classify(case, d):
    """the properties a deviation breaks"""
    st, name = case.stage, case.name
    path = [str(x) for x in getattr(d, "path", ())]
    P = " / ".join(path)
    got, want = getattr(d, "got", None), getattr(d, "want", None)
    last = path[-1] if path else ""
    out = set()
    if st == "P":
        return {"C01"}
    if st == "M":
        return {"C04"} if last in ("standard output", "input") or "standard output" in P else {"C03"}
    if st == "IO":
        return {"C03"} if name.startswith("rejected") or path[:1] == ["options"] or last == "format" else {"C04"}
    if st == "K":
        refused = name.startswith("refused")
        kw = name.split()[1] if refused else path[0][8:] if path and path[0].startswith("keyword ") else ""
        out = {"type": {"C05"}, "format": {"C05"}, "description": {"C19", "C06"}, "title": {"C19", "C06"}, "items": {"C06", "C07"}, "additionalItems": {"C07"}, "minItems": {"C07"},
               "maxItems": {"C07"}, "required": {"C11", "C06"}, "": {"C05", "C06"}}.get(kw, {"C06"})
        if path[:1] == ["the other keywords"]:
            return {"C23"}
        if refused:
            return {"C06"} | (out & {"C05"})
        if is_abort(got) or status(got) == "err":
            return {"C26", "C06"} | ({"C05"} if name.startswith("format") else set()) | ({"C07"} if "above" in name else set())
        return out
    if st == "Z":
        return {"C01", "C28"} if "order" in path else {"C28"}
    if st in ("R", "EA", "EB", "S") and "order" in path:
        return {"C01"} | ({"C20"} if st == "S" else set())
    nullable = last in ("nullable",) or "nullable" in path[-2:]
    if st == "R":
        main = {"C05"} if re.search("^type|^unknown", name) else {"C07"} if name.startswith("tuple") else {"C06"}
        if name.startswith("type list") or name.startswith("type absent"):
            main |= {"C06"}
        if "description" in path or "title" in path:
            return {"C06", "C19"}
        if "inference after reading" in P:
            return {"C15", "C24", "C12", "C11", "C13"}
        if has(want, lambda x: x[:2] == ("app", "reading under the same options")):
            return main | {"C24"}
        if "namespace" in path or last == "name" or "is_root" in path:
            return {"C15", "C06"}
        if nullable:
            out |= {"C11"} | main
            return out
        if "required" in path:
            return {"C11", "C06", "C09"}
        if is_abort(got) or status(got) != status(want) and status(want):
            out |= {"C26"}
        return out | main
    if st == "uc":
        if last == "is_root":
            return {"C15"}
        if is_abort(got) or is_abort(want):
            out |= {"C26"}
        main = {"C08"} if re.search("^atoms|^empty|null", name) and "object" not in name else set()
        if re.search("object|map|array|tuple|mixed", name):
            main |= {"C09"}
        if "nested" in name:
            main |= {"C10"}
        if nullable:
            return out | {"C11"} | (main & {"C08"})
        if "required" in path:
            return out | {"C11", "C09"}
        if "resolved child" in repr(want) or has(got, lambda x: x[0] == "adt" and x[1] == TYPE and x[2] == UNION):
            out |= {"C10"}
        if name == "single nested union" or name.startswith("single"):
            out |= {"C10"}
        return out | main
    if st == "tc":
        if nullable:
            return {"C11", "C10"} if "union" in name else {"C11", "C10"}
        if "description" in path or "title" in path:
            return {"C19", "C10"}
        if is_abort(got):
            out |= {"C26"}
        if name == "tuple":
            out |= {"C07"}
        if "required" in path:
            out |= {"C11"}
        return out | {"C10"}
    if st == "nul":
        if is_abort(got):
            out |= {"C26"}
        out |= {"C12"} if "force" in name else {"C11"}
        if name.startswith("tuple"):
            out |= {"C07"}
        if "infer_nullability arg 1" in P:
            out |= {"C24"}
        return out
    if st == "np":
        if is_abort(got):
            return {"C26", "C13"}
        if "required" in path:
            return {"C14", "C11"}
        out |= {"C13"} if name.startswith("clash") else {"C13", "C14"}
        return out
    if st == "in":
        if is_abort(got):
            return {"C26", "C15", "C13"}
        if "required" in path:
            return {"C14", "C11"}
        if name.startswith("object"):
            out |= {"C13", "C14"}
        if name.startswith("tuple"):
            out |= {"C07"}
        if "infer_name arg 1" in P or re.search(r"infer_name(:\d+)? arg", P) and want in (TRUE, FALSE):
            out |= {"C24"}
        return out | {"C15"}
    if st in ("EA", "EB"):
        main = "C17" if st == "EA" else "C18"
        tup = {"C07"} if name.startswith("tuple") else set()
        if "preparation" in P:
            if "option" in path:
                return {"C24", "C12"} if "infer_nullability" in P else {"C24", "C13", "C14"}
            if "name" in path:
                return {"C15", main}
            need = repr(want)
            gotr = repr(got)
            for w, ps in (("collapse", {"C10", "C27"}), ("infer_name", {"C15", "C13", "C14"}), ("infer_nullability", {"C11", "C12"})):
                if need.count(w) > gotr.count(w):
                    out |= ps
            return out or {"C10", "C11", "C15"}
        if "path match" in P or "path pattern" in P or "path matched" in P:
            return {"C23"}
        if "translate_from arg 1" in P or P.endswith("arg 1"):
            return {"C24", main}
        sg, sw = status(got), status(want)
        if sw is not None and sg != sw or is_abort(got):
            # the fate of a node without counterpart, or of its children
            if "dropped" in name:
                out |= {"C22", "C21"}
            else:
                out |= {"C21"}
            if "json" in name and st == "EB" or "path" in name:
                out |= {"C23"}
            if is_abort(got):
                out |= {"C26"}
            return out | tup
        if "description" in path or "description of" in name or name.startswith("title of"):
            if "description" in path or last == "":
                return {"C19"}
        if "mode" in path:
            return {"C18", "C11"} | ({"C12"} if "nullable" in name else set())
        if st == "EA" and ("default" in path or "Union" in repr(getattr(want, "__class__", "")) or union_diff(case, d)):
            out |= {"C16", "C11"}
        if "json" in name:
            out |= {"C23", "C21"}
        if "null," in name or name.startswith("object empty") or name.startswith("union"):
            out |= {"C21"}
        if "dropped" in name or "one kept" in name or "allow" in name:
            out |= {"C22"}
        if st == "EA" and ("name" in path or "namespace" in path):
            out |= {"C15"}
        if last in ("name",) and st == "EB":
            out |= {"C15"}
        if "order" in path:
            out |= {"C01"}
        return out | tup | {main}
    if st == "S":
        if "order" in path:
            return {"C01", "C20"}
        if "options" in path or "translation of the root" in P:
            return {"C24", "C20"}
        if is_abort(want):
            return {"C21", "C04", "C20"}
        if is_abort(got):
            return {"C26", "C20"}
        return {"C20"}
    if st == "L":
        if "caller's schema" in P:
            return {"C02"}
        if "options" in path:
            if "json_object_path_regex" in P:
                return {"C23"}
            return {"C24", "C03"} | ({"C23"} if "regex" in P else set())
        if is_abort(want):
            return {"C21", "C04"}
        if is_abort(got):
            return {"C26", "C23"} if "is" in name.split("metadata:")[-1] else {"C26"}
        return {"C02", "C24", "C04"}
    if st == "X":
        return {"C27"}
    return out


def union_diff(case, d):
    """an Avro union where none belongs or the other way round"""
    def isu(x):
        return isinstance(x, tuple) and x and x[0] == "adt" and x[1] == "jst::avro::Type" and x[2] == 2
    return isu(d.got) != isu(d.want) or isu(d.want)


# what a check that decided fewer cells than this has not decided anything
FLOOR = {}
