"""Functions the cases start from, found again under another name.

An anchor that no longer exists by its path is identified by its signature when exactly one function with that
signature disappeared from the known ones and exactly one unknown function has it."""
import re

TAGP = "jst::ast::Tag"
# signature (result, parameters) -> functions of the crate that have it
KNOWN = {
    ("jst::ast::Tag", "&jst::ast::Union"): ["jst::ast::Union::collapse"],
    ("()", "&mut jst::ast::Tag"): ["jst::ast::Tag::collapse"],
    ("()", "&mut jst::ast::Tag", "bool"): ["jst::ast::Tag::infer_nullability", "jst::ast::Tag::normalize_properties", "jst::ast::Tag::infer_name"],
    ("jst::ast::Tag", "&serde_json::value::Value", "&mut jst::Context"): ["jst::into_ast"],
}


def signature(types, f):
    b = f["body"]
    return tuple(types[b["locals"][i]["ty"]]["s"] for i in range(b["argc"] + 1))


def renamed(d):
    """{new path: known path}"""
    by = {}
    for f in d["fns"].values():
        if f["local"] and not f["derived"] and not f["closure"] and not f["generic"] and f.get("body") and not f.get("trait"):
            s = signature(d["types"], f)
            if s in KNOWN:
                by.setdefault(s, set()).add(f["path"])
    out = {}
    for s, ks in KNOWN.items():
        have = by.get(s, set())
        gone, new = [k for k in ks if k not in have], [x for x in have if x not in ks]
        paths = {f["path"] for f in d["fns"].values()}
        if len(gone) == 1 and len(new) == 1 and gone[0] not in paths:
            out[new[0]] = gone[0]
    return out


def apply(text, d, load):
    r = renamed(d)
    if not r:
        return d
    for new, old in r.items():
        text = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(new), old, text)
    return load(text)
