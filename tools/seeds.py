"""Planted bugs: edits to the source and inputs on which they show."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


AST, AVRO, BQ, JS, LIB, MAIN, CASE = ("src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs", "src/main.rs", "src/casing.rs")
A, B = ["-t", "avro"], ["-t", "bigquery"]


def d(args, schema, **kw):
    return dict(args=args, schema=schema, **kw)


def obj(props, **kw):
    return dict(type="object", properties=props, **kw)


I, S, N, BO = {"type": "integer"}, {"type": "string"}, {"type": "number"}, {"type": "boolean"}
NUL = {"type": "null"}

seed("s02-avro-field-order", "C01", [(AVRO, "fields.sort_by_key(|v| v.name.to_string());", "fields.sort_by_key(|v| v.name.to_lowercase());")],
     "two fields whose names differ in case only", "fields that differ in case only are emitted in hash order",
     [d(A, obj({"aa": I, "AA": I, "Aa": I, "aA": S, "bB": I, "Bb": S, "BB": N, "bb": I}), repeat=16)])
seed("s04-merge-right-only", "C09", [(AST, """                            } else {
                                union.insert(key.to_string(), vec![*value.clone()]);
                            }
""", """                            } else if left.required.is_none() || !left.fields.is_empty() {
                                union.insert(key.to_string(), vec![*value.clone()]);
                            }
""")],
     "a union whose first object has no properties but a required list", "the fields of the other alternatives are lost",
     [d(B, {"oneOf": [obj({}, required=["x"]), obj({"a": I, "b": S})]})])
seed("s06-map-collapse", "C10", [(AST, "Type::Map(map) => map.value.collapse(),", """Type::Map(map) => {
                if let Type::Union(_) = map.value.data_type {
                    map.value.collapse()
                }
            }
""")],
     "in Avro, a union two levels below a map (the root is the only node collapsed there)", "unions below a map's value stay unresolved and become strings",
     [d(A, obj({"m": {"type": "object", "additionalProperties": obj({"a": {"type": ["integer", "null"]}})}}))])
seed("s08-force-null-array", "C12", [(AST, "Type::Array(array) => array.items.infer_nullability(force_nullable),", "Type::Array(array) => array.items.infer_nullability(force_nullable && !array.items.is_array()),")],
     "force-nullable and nested arrays", "inner lists of nested arrays stay required", 
     [d(A + ["-n"], obj({"a": {"type": "array", "items": {"type": "array", "items": {"type": "array", "items": I}}}}))])
seed("s09-name-dash-only", "C13", [(AST, "string.replace(['.', '-'], \"_\")", "string.replacen(['.', '-'], \"_\", 8)")],
     "a property name with more than eight dots or dashes", "such a property is dropped instead of renamed",
     [d(B, obj({"a.b.c.d.e.f.g.h.i.j.k": I}))])
seed("s12-tuple-min-items", "C07", [(JS, "for item in unwrapped.iter_mut().skip(min_items) {", "for item in unwrapped.iter_mut().rev().take(unwrapped_len.saturating_sub(min_items.max(1))) {"),
                                   (JS, "                                let mut unwrapped = items?;\n", "                                let mut unwrapped = items?;\n                                let unwrapped_len = unwrapped.len();\n")],
     "a tuple with minItems 0", "the first position of a tuple with minItems 0 stays required",
     [d(B + ["--tuple-struct"], obj({"t": {"type": "array", "items": [I, S, N], "additionalItems": False, "minItems": 0}}))])
seed("s13-tuple-padding", "C07", [(JS, "for _ in unwrapped.len()..max_items {", "for _ in unwrapped.len()..max_items.min(unwrapped.len() * 2) {")],
     "maxItems more than twice the number of listed items", "fewer positions than maxItems are emitted",
     [d(B + ["--tuple-struct"], obj({"t": {"type": "array", "items": [I], "additionalItems": S, "maxItems": 5}}))])
seed("s14-format-number", "C05", [(JS, """            (Value::String(string), Some(Format::Bytes)) if string == "string" => {""", """            (Value::String(string), Some(Format::Bytes)) if string != "object" => {""")],
     "format bytes on a type other than string", "the bytes format turns numbers, arrays or null into bytes",
     [d(B, obj({"a": {"type": "integer", "format": "bytes"}}))])
seed("s15-oneof-properties", "C06", [(JS, "(Some(AdditionalProperties::Object(add)), Some(pat)) => {", "(Some(AdditionalProperties::Object(add)), Some(pat)) if pat.len() < 2 => {")],
     "additionalProperties as a schema together with two or more patternProperties", "the additionalProperties schema is ignored",
     [d(B, obj({"m": {"type": "object", "additionalProperties": N, "patternProperties": {"^a": I, "^b": I}}}))])
seed("s16-avro-default", "C16", [(AVRO, """                    .map(|(i, v)| {
                        let default = if v.nullable { Some(json!(null)) } else { None };""", """                    .map(|(i, v)| {
                        let default = if v.nullable && !v.is_object() { Some(json!(null)) } else { None };""")],
     "an optional tuple position that is a record", "the null-able field has no null default",
     [d(A + ["--tuple-struct"], obj({"t": {"type": "array", "items": [I, obj({"a": I})], "additionalItems": False, "minItems": 1}}))])
seed("s17-bq-nested-array", "C18", [(BQ, "let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));", "let child_is_array = matches!(&array.items.data_type, ast::Type::Array(inner) if !inner.items.is_map());")],
     "an array of arrays of maps", "the nested array loses its wrapping record",
     [d(B, obj({"a": {"type": "array", "items": {"type": "array", "items": {"type": "object", "additionalProperties": I}}}}))])
seed("s18-description-bytes", "C19", [(BQ, "description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());", """description.map(|d| if d.len() <= MAX_DESCRIPTION_LENGTH { d } else { d.chars().take(MAX_DESCRIPTION_LENGTH - 1).collect() });""")],
     "a description of more than 1024 bytes", "a description is cut to 1023 characters, and one of 1024 multi-byte characters is cut at all",
     [d(B, obj({"a": {"type": "integer", "description": "x" * 1500}})), d(B, obj({"a": {"type": "integer", "description": "\u00e9" * 1024}}))])
seed("s20-drop-map", "C22", [(BQ, """                        if context.allow_maps_without_value {
                            None
                        } else {""", """                        if context.allow_maps_without_value || map.value.is_object() {
                            None
                        } else {""")],
     "drop without allow-maps-without-value and a map of objects whose fields are all dropped", "the map is kept with only its key",
     [d(B + ["-r", "drop"], obj({"i": I, "m": {"type": "object", "additionalProperties": obj({"x": {"type": "object"}})}}))])
seed("s22-path-suffix", "C23", [(LIB, "json_object_path_re.is_match(fqn)", "json_object_path_re.is_match(fqn.trim_start_matches(\"root.\"))")],
     "a node whose path starts with root.", "the pattern is matched against a shortened path",
     [d(B, obj({"root": obj({"a": {"type": "object"}}), "x": {"type": "object"}}, mozPipelineMetadata={"json_object_path_regex": "a"}))])
seed("s23-option-depth", "C24", [(BQ, "Ok(tag) => tag,\n                    Err(_) => return Err(fmt_reason(\"untyped array\")),", "Ok(tag) => tag,\n                    Err(_) => return Err(fmt_reason(\"untyped array\")),"),
                                 (BQ, "let sub_tag = match Tag::translate_from(*array.items.clone(), context) {", "let element = Context {\n                    allow_maps_without_value: false,\n                    ..context.clone()\n                };\n                let sub_tag = match Tag::translate_from(*array.items.clone(), &element) {")],
     "allow-maps-without-value, drop and a map inside an array", "the option is off below arrays",
     [d(B + ["-r", "drop", "-w"], obj({"a": {"type": "array", "items": {"type": "object", "additionalProperties": {"type": "object"}}}, "b": I}))])
seed("s26-swap-flags", "C03", [(MAIN, "normalize_case: args.normalize_case,", "normalize_case: args.normalize_case || (args.tuple_struct && args.force_nullable),")],
     "--tuple-struct together with --force-nullable", "two flags together switch on snake_casing",
     [d(B + ["--tuple-struct", "-n"], obj({"camelCase": I}))])
seed("s27-default-format", "C03", [(MAIN, "#[arg(short, long, value_enum, default_value_t = Resolve::Cast)]", "#[arg(short, long, value_enum, default_value_t = Resolve::Drop)]")],
     "no --resolve option and an opaque node", "the default strategy is drop", [d(A, obj({"a": {"type": "object"}, "b": I}))])
seed("s30-empty-file", "C04", [(MAIN, "    let data: Value = serde_json::from_reader(reader).unwrap();", "    let data: Value = serde_json::from_reader(reader).unwrap_or_else(|e| if e.is_eof() { serde_json::json!({}) } else { panic!(\"{}\", e) });")],
     "truncated or empty input", "truncated input is converted as if it were an empty schema", [dict(args=A, raw='{"type": "object"'), dict(args=A, raw='')])
seed("s31-ambient", "C02", [(BQ, "let truncated_description =\n            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());", "let limit = std::env::var(\"BQ_MAX_DESCRIPTION\")\n            .ok()\n            .and_then(|x| x.parse().ok())\n            .unwrap_or(MAX_DESCRIPTION_LENGTH);\n        let truncated_description = description.map(|d| d.chars().take(limit).collect());")],
     "an environment variable", "the result depends on the environment", [d(B, obj({"a": {"type": "integer", "description": "xyz"}}), env={"BQ_MAX_DESCRIPTION": "1"})])
