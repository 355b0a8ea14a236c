#!/usr/bin/env python3
"""Development aid: systematic small edits of the source. Keeps those that build and pass the tests, analyses them and
lists the ones no check reports.   mutate.py OUT.jsonl [PART/PARTS] [--gen]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import variants

SUBS = [
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" && ", " || "), (r" \|\| ", " && "), (r" == ", " != "), (r" != ", " == "),
    (r" < ", " <= "), (r" > ", " >= "), (r" >= ", " > "), (r" <= ", " < "), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\bif (?!let\b)([^{]+?) \{", r"if !(\1) {"), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"), (r"\bis_ok\b", "is_err"),
    (r"!tag\.", "tag."), (r"!required", "required"), (r"!x\.", "x."), (r"!namespace", "namespace"), (r"= !", "= "),
    (r"\.skip\(", ".take("), (r"\|= ", "= "), (r" = tag\.nullable", " &= tag.nullable"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1024\b", "1023"), (r"\.\.max_items", "..=max_items"),
    (r"&self\.name\b", "&self.namespace"), (r"&self\.namespace\b", "&self.name"), (r"tag\.name\b", "tag.namespace"), (r"tag\.namespace\b", "tag.name"),
    (r"tag\.title\b", "tag.description"), (r"tag\.description\b", "tag.title"), (r"self\.description\b", "self.title"), (r"self\.title\b", "self.description"),
    (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bmin_items\b", "max_items"), (r"\bmax_items\b", "min_items"),
    (r"context\.normalize_case", "context.force_nullable"), (r"context\.force_nullable", "context.normalize_case"), (r"context\.normalize_case", "false"), (r"context\.force_nullable", "false"),
    (r"context\.tuple_struct", "true"), (r"context\.allow_maps_without_value", "true"), (r"context\.allow_maps_without_value", "false"), (r"context\.resolve_method", "ResolveMethod::Cast"),
    (r"args\.(normalize_case|force_nullable|tuple_struct|allow_maps_without_value)", "false"), (r"normalize_case\)", "false)"), (r"force_nullable\)", "false)"),
    (r"\bSome\([^()]*\)", "None"), (r"\bNone\b", "Some(Default::default())"), (r"data_type,$", "Type::default(),"),
    (r"map\.key\b", "map.value"), (r"map\.value\b", "map.key"), (r"\.keys\(\)", ".keys().take(1)"), (r"\.values\(\)", ".values().take(1)"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.iter\(\)", ".iter().skip(1)"),
    (r"\.iter_mut\(\)", ".iter_mut().take(1)"), (r"\.iter_mut\(\)", ".iter_mut().skip(1)"), (r"\.into_iter\(\)", ".into_iter().take(1)"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"values_mut\(\)", "values_mut().take(1)"),
    (r"\.values\(\)", ".values().rev()"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().rev()"), (r"intersection", "union"), (r"intersection", "difference"),
    (r"starts_with", "ends_with"), (r"is_numeric", "is_alphabetic"), (r"is_match\((.*?)\)", r"is_match(\1) || \1.len() > 40"), (r"chars\(\)", "chars().rev()"),
    (r"Primitive::Long", "Primitive::Int"), (r"Primitive::Double", "Primitive::Float"), (r"Primitive::Bytes", "Primitive::String"), (r"Primitive::String", "Primitive::Bytes"), (r"Primitive::Boolean", "Primitive::Int"), (r"Primitive::Null", "Primitive::String"),
    (r"Atom::Timestamp", "Atom::Datetime"), (r"Atom::Bytes", "Atom::String"), (r"Atom::Int64", "Atom::Numeric"), (r"Atom::Float64", "Atom::Numeric"), (r"Atom::Bool\b", "Atom::String"), (r"Atom::Json", "Atom::String"), (r"Atom::Datetime", "Atom::String"), (r"Atom::Number", "Atom::Integer"), (r"Atom::Integer", "Atom::Number"), (r"Atom::Boolean", "Atom::Integer"),
    (r"Atom::String", "Atom::Json"), (r"Type::Null\b", "Type::Atom(Atom::Json)"), (r"DateTime", "Bytes"), (r"Format::Bytes", "Format::Json"),
    (r"Mode::Repeated", "Mode::Nullable"), (r"Mode::Nullable", "Mode::Required"), (r"Mode::Required", "Mode::Nullable"),
    (r"ResolveMethod::Cast", "ResolveMethod::Drop"), (r"ResolveMethod::Drop", "ResolveMethod::Cast"), (r"ResolveMethod::Panic", "ResolveMethod::Drop"),
    (r"Resolve::Cast", "Resolve::Drop"), (r"Type::Array\(_\)", "Type::Map(_)"), (r"Type::Object\(_\)", "Type::Map(_)"), (r"Type::Map\(_\)", "Type::Array(_)"),
    (r"skip_serializing_if = \"Option::is_none\", ", ""), (r"rename_all = \"camelCase\"", "rename_all = \"snake_case\""), (r"rename_all = \"lowercase\"", "rename_all = \"UPPERCASE\""), (r"rename_all = \"UPPERCASE\"", "rename_all = \"lowercase\""),
    (r"rename_all = \"kebab-case\"", "rename_all = \"snake_case\""), (r"short = 'c', ", ""), (r"short = 'n'", "short = 'N'"), (r"#\[serde\(untagged\)\]", ""), (r", tag = \"type\"", ""),
    (r'"([A-Za-z_.-]{1,24})"', r'"\1x"'), (r"r\"\^\[a-zA-Z_\]", 'r"^[a-zA-Z0-9_]'), (r"\[a-zA-Z0-9_\]\*", "[a-zA-Z0-9_]+"), (r"\\A", ""), (r"\\A\(\?:\{\}\)", r"\\A{}"), (r"\['\.', '-'\]", "['.']"), (r"\['\.', '-'\]", "['.', '-', '$']"),
    (r"\"\{\} - \{\}\"", '"{}: {}"'), (r"\"\{\}\.\{\}\"", '"{}_{}"'), (r"\"_\{\}\"", '"{}_"'), (r"f\{\}_", "f{}"), (r"nullable,$", "nullable: false,"), (r"is_null \|\| ", ""),
    (r"(\w+)\.clone\(\)", r"Default::default()"), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"unwrap_or\(unwrapped\.len\(\)\)", "unwrap_or(0)"), (r"unwrap_or\(false\)", "unwrap_or(true)"),
    (r"Ok\(_\) =>", "Ok(_) if tag.nullable =>"), (r"return Err\((.*)\);", r"panic!(\"{}\", \1);"),
]
DEL = re.compile(r"^\s*(?!let |return|use |pub |fn |impl|enum |struct |\}|//|break|continue|mod |extern|#!|if |for |while |match )[a-z_*].*;$|^\s*\.(filter|sort|map_err|skip|take|rev|flatten)\b.*$|^\s*#\[(serde|arg)\(.*\)\]$|^\s*(vec\.sort|fields\.sort|keys\.sort).*$")


def mutants():
    for f in ("src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs", "src/main.rs"):
        lines = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout.split("\n")
        for n, l in enumerate(lines):
            if l.startswith("#[cfg(test)]"):
                break
            if l.strip().startswith(("//", "trace!", "warn!", "use ")):
                continue
            seen = set()
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    t = l[:m.start()] + m.expand(b) + l[m.end():]
                    if t != l and t not in seen:
                        seen.add(t)
                        yield f, n, l, t
            if DEL.match(l):
                yield f, n, l, ""


def main():
    out = sys.argv[1]
    ms = list(mutants())
    if "--gen" in sys.argv:
        print(len(ms))
        return
    part, parts = (int(x) for x in sys.argv[2].split("/")) if len(sys.argv) > 2 else (0, 1)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["f"], d["n"], d["new"]))
    T = variants.B + "/mut"
    if not os.path.isdir(T):
        shutil.copytree("/repo", T, symlinks=True)
    for i, (f, n, old, new) in enumerate(ms):
        if i % parts != part or (f, n + 1, new) in done:
            continue
        variants.fresh()
        for p in (os.path.join(variants.W, f),):
            ls = open(p).read().split("\n")
            assert ls[n] == old
            ls[n] = new
            open(p, "w").write("\n".join(ls))
        rec = {"f": f, "n": n + 1, "old": old, "new": new}
        subprocess.run(["git", "-C", T, "checkout", "-q", "--", "."], check=True)
        shutil.copy(os.path.join(variants.W, f), os.path.join(T, f))
        b = subprocess.run(["cargo", "test", "--offline", "--no-run", "-q"], cwd=T, capture_output=True, text=True)
        if b.returncode:
            rec["r"] = "build"
        else:
            try:
                t = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=T, capture_output=True, text=True, timeout=120)
                rec["r"] = "tests" if t.returncode else "alive"
            except subprocess.TimeoutExpired:
                rec["r"] = "tests"
        if rec["r"] == "alive":
            res, err = variants.analyse()
            if res is None:
                rec["r"] = "error"; rec["err"] = err
            else:
                rec["alarms"] = {p: len(x) for p, x in res["alarms"].items()}
                rec["und"] = {s: len(x) for s, x in res["und"].items()}
                rec["why"] = sorted({w[:200] for x in res["und"].values() for _, w in x})[:4]
                rec["r"] = "caught" if rec["alarms"] else "undecided" if rec["und"] else "MISSED"
        open(out, "a").write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
