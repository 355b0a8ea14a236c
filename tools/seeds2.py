"""More planted bugs (see tools/seeds.py)."""
from seeds import *


def L(schema, fmt="bigquery", **context):
    return dict(format=fmt, schema=schema, context=context)


def lib(*calls):
    return dict(lib=list(calls))


def arr(items, **kw):
    return dict(type="array", items=items, **kw)


def mp(value, **kw):
    return dict(type="object", additionalProperties=value, **kw)


OPAQUE = {"type": "object"}
T = ["--tuple-struct"]

# C01
seed("t01-root-columns-case", "C01", [(BQ, "                vec.sort_by_key(|(key, _)| key.to_string());\n", "                vec.sort_by_key(|(key, _)| key.to_lowercase());\n")],
     "root columns whose names differ in case only", "such columns come in hash order",
     [d(B, obj({"aa": I, "AA": I, "Aa": S, "aA": N, "bB": I, "Bb": S, "BB": N, "bb": I}), repeat=16)])
seed("t02-record-columns-underscore", "C01", [(BQ, "        vec.sort_by_key(|(k, _)| k.to_string());\n", "        vec.sort_by_key(|(k, _)| k.trim_matches('_').to_string());\n")],
     "nested columns whose names differ in leading or trailing underscores only", "such columns come in hash order",
     [d(B, obj({"r": obj({"a": I, "_a": S, "a_": N, "__a": BO, "_a_": I, "a__": S})}), repeat=16)])
# C02 / C23
seed("t05-warned-once", "C02", [(BQ, "                ResolveMethod::Drop => Err(message),\n", """                ResolveMethod::Drop => {
                    static DROPPED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                    if DROPPED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 1000 {
                        warn!("many fields were dropped");
                        return Ok(Type::Atom(Atom::String));
                    }
                    Err(message)
                }
""")], "more than a thousand dropped nodes in one process", "one opaque column is cast instead of dropped, depending on what ran before",
     [d(B + ["-r", "drop"], obj(dict({"a%d" % i: OPAQUE for i in range(1200)}, z=I)))])
# C03
seed("t06-drop-is-cast", "C03", [(MAIN, "            Resolve::Drop => ResolveMethod::Drop,\n", "            Resolve::Drop if args.allow_maps_without_value && matches!(args.typ, Type::Avro) => ResolveMethod::Cast,\n            Resolve::Drop => ResolveMethod::Drop,\n"),
                                (MAIN, "            Resolve::Panic => ResolveMethod::Panic,\n", "            Resolve::Panic => { ResolveMethod::Panic }\n")],
     "--resolve drop together with -w and Avro", "opaque nodes are cast although drop was asked for",
     [d(A + ["-r", "drop", "-w"], obj({"a": OPAQUE, "b": I}))])
# C04
seed("t07-file-limit", "C04", [(MAIN, "            Box::new(BufReader::new(file))", "            Box::new(BufReader::new(io::Read::take(file, 1 << 16)))")],
     "an input file of more than 64 KiB", "such a file is refused",
     [d(A, obj({"a": {"type": "integer", "description": "x" * 70000}}), file=True)])
seed("t08-trailing-garbage", "C04", [(MAIN, "    let data: Value = serde_json::from_reader(reader).unwrap();", "    let data: Value = serde_json::Deserializer::from_reader(reader)\n        .into_iter()\n        .next()\n        .unwrap()\n        .unwrap();")],
     "text after the document", "input that is not a JSON document is converted", [dict(args=A, raw='{"type": "object", "properties": {"a": {"type": "integer"}}} }')])
# C05
seed("t10-list-skips-unknown", "C05", [(JS, "                    .map(|v| serde_json::from_value(json!(v)).unwrap())\n", "                    .filter_map(|v| serde_json::from_value(json!(v)).ok())\n")],
     "a type list with a name that is no type", "the unknown name is skipped instead of refused", [d(B, obj({"a": {"type": ["string", "varchar"]}}))])
seed("t11-type-names", "C05", [(JS, "#[derive(Serialize, Deserialize, Debug)]\n#[serde(rename_all = \"kebab-case\")]\nenum Atom {", "#[derive(Serialize, Deserialize, Debug)]\n#[serde(rename_all = \"lowercase\")]\nenum Atom {")],
     "the type name date-time", "the type name date-time is refused", [d(B, obj({"a": {"type": "date-time"}}))])
seed("t12-format-in-list", "C05", [(JS, "            (Value::Array(array), _) => {\n", "            (Value::Array(array), Some(Format::DateTime)) if array.len() == 1 => Type::List(vec![Atom::DateTime]),\n            (Value::Array(array), _) => {\n"), (JS, "            _ => Type::Atom(Atom::Object),\n        }\n    }\n", "            (_, _) => Type::Atom(Atom::Object),\n        }\n    }\n")],
     "a type list of one name with format date-time", "the format is applied to a type list", [d(B, obj({"a": {"type": ["integer"], "format": "date-time"}}))])
# C06
seed("t13-empty-properties", "C06", [(JS, "                Some(properties) => {\n", "                Some(properties) if !properties.is_empty() || self.one_of.is_none() => {\n"), (JS, "                None => {\n                    // handle maps\n", "                _ => {\n                    // handle maps\n")],
     "empty properties next to oneOf", "oneOf is read although properties are given", [d(B, obj({}, oneOf=[I, I]))])
seed("t14-pattern-before-add", "C06", [(JS, "                            pat.values().map(|v| v.type_into_ast(context)).collect();\n                            vec.extend(pat_vec?);", "                            pat.values().take(7).map(|v| v.type_into_ast(context)).collect();\n                            vec.extend(pat_vec?);"), (JS, "                            let pat_vec: Result<Vec<_>, _> =\n", "                            let pat_vec: Result<Vec<ast::Tag>, _> =\n")],
     "additionalProperties and more than seven patterns", "patterns after the seventh are ignored",
     [d(B, obj({"m": mp(I, patternProperties=dict({"^%s" % c: I for c in "abcdefg"}, **{"^z": S}))}))])
# C07
seed("t16-max-items-open", "C07", [(JS, "                                        if max_items == unwrapped.len() {\n", "                                        if max_items == unwrapped.len() || min_items == 0 && max_items > 0 {\n")],
     "an open tuple with minItems 0 and another maxItems", "a tuple that may hold unknown items becomes a record",
     [d(B + T, obj({"t": arr([I, S], minItems=0, maxItems=4)}))])
seed("t17-padding-required", "C07", [(JS, "                                            ast_tag.nullable = true;\n", "                                            ast_tag.nullable = unwrapped.len() >= min_items || ast_tag.nullable;\n")],
     "minItems beyond the listed items", "a padded position is required", [d(B + T, obj({"t": arr([I], additionalItems=S, minItems=2, maxItems=3)}))])
seed("t18-closed-max", "C07", [(JS, "                                    Some(AdditionalProperties::Bool(false)) => {\n", "                                    Some(AdditionalProperties::Bool(false))\n                                        if self.array.max_items.map_or(true, |max| max <= unwrapped.len()) =>\n                                    {\n")],
     "a closed tuple with a maxItems beyond its length", "a closed tuple with a larger maxItems is refused", [d(B + T, obj({"t": arr([I, S], additionalItems=False, maxItems=5)}))])
seed("t19-max-u8", "C07", [(JS, "    max_items: Option<usize>,\n", "    max_items: Option<u8>,\n"), (JS, "                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items < unwrapped.len() {", "                                        let max_items = usize::from(self.array.max_items.unwrap_or(0));\n                                        if max_items < unwrapped.len() {"),
                            (JS, "                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items == unwrapped.len() {", "                                        let max_items = usize::from(self.array.max_items.unwrap_or(0));\n                                        if max_items == unwrapped.len() {")],
     "an array with maxItems above 255", "schemas with a maxItems above 255 are refused", [d(B, obj({"a": arr(I, maxItems=1000)}))])
# C08
seed("t21-json-bytes", "C08", [(AST, "                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,\n", "                            (Atom::Json, Atom::Bytes) => Atom::Bytes,\n                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,\n"), (AST, "                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,\n", "                            (Atom::Boolean, Atom::Boolean) => { Atom::Boolean }\n")],
     "an opaque alternative before bytes", "JSON and bytes resolve to bytes", [d(B, obj({"a": {"oneOf": [OPAQUE, {"type": "bytes"}]}}))])
seed("t22-wide-number", "C08", [(AST, "                            | (Atom::Number, Atom::Integer) => Atom::Number,\n", "                            | (Atom::Number, Atom::Integer)\n                            | (Atom::Number, Atom::Boolean) => Atom::Number,\n")],
     "number before boolean", "number and boolean resolve to number instead of JSON", [d(B, obj({"a": {"type": ["number", "boolean"]}}))])
# C09
seed("t25-json-nullable-field", "C09", [(AST, ".any(|(_, v)| matches!(v.data_type, Type::Atom(Atom::Json)));", ".any(|(_, v)| matches!(v.data_type, Type::Atom(Atom::Json)) && !v.nullable);")],
     "objects that disagree on a null-able field", "objects that do not merge are merged", [d(B, {"oneOf": [obj({"a": {"type": ["integer", "null"]}, "b": I}), obj({"a": S, "b": I})]})])
seed("t26-merge-vs-map", "C09", [(AST, "        } else if items.iter().all(Tag::is_object) {\n", "        } else if items.len() < 17 && items.iter().all(Tag::is_object) {\n")],
     "a union of more than 16 objects", "objects are not merged", [d(B, {"oneOf": [obj({"a%d" % i: I}) for i in range(18)]})])
# C10
seed("t27-array-of-array-unions", "C10", [(AST, "            Type::Array(array) => array.items.collapse(),\n", "            Type::Array(array) if !array.items.is_array() => array.items.collapse(),\n")],
     "Avro and a union below an array of arrays", "the union stays unresolved", [d(A, obj({"a": arr(arr({"type": ["integer", "null"]}))}))])
seed("t28-required-fields-only", "C10", [(AST, "                for value in &mut object.fields.values_mut() {\n", "                for value in object.fields.values_mut().filter(|value| !value.is_object() || value.title.is_none()) {\n")],
     "Avro and a union below a titled object", "the union stays unresolved and becomes a string", [d(A, obj({"o": obj({"a": {"type": ["integer", "null"]}}, title="t")}))])
# C11
seed("t30-array-field-required", "C11", [(AST, "                    value.nullable |= !required.contains(key);\n", "                    value.nullable |= !required.contains(key) && !(value.is_array() && required.is_empty());\n")],
     "an optional array in Avro in an object that requires nothing", "an optional array is not null-able", [d(A, obj({"a": arr(I)}))])
# C12
seed("t32-force-tuple-items", "C12", [(AST, "                for item in tuple.items.iter_mut() {\n                    item.infer_nullability(force_nullable);\n", "                for item in tuple.items.iter_mut() {\n                    item.infer_nullability(force_nullable && !item.is_object());\n")],
     "force-nullable and an object in a tuple", "objects in tuples stay required", [d(B + ["-n"] + T, obj({"t": arr([I, obj({"a": I}, required=["a"])], additionalItems=False)})), d(A + ["-n"] + T, obj({"t": arr([I, obj({"a": I}, required=["a"])], additionalItems=False)}))])
# C13
seed("t34-unicode-names", "C13", [(AST, "let re = Regex::new(r\"^[a-zA-Z_][a-zA-Z0-9_]*$\").unwrap();", "let re = Regex::new(r\"^[a-zA-Z_]\\w*$\").unwrap();")],
     "a name with a letter outside ASCII after its first character", "invalid column names are emitted", [d(B, obj({"caf\u00e9": I, "b": I}))])
seed("t35-newline-name", "C13", [(AST, "let re = Regex::new(r\"^[a-zA-Z_][a-zA-Z0-9_]*$\").unwrap();", "let re = Regex::new(r\"^[a-zA-Z_][a-zA-Z0-9_]*\\s?$\").unwrap();")],
     "a name with a trailing blank", "a name that ends in a blank is emitted", [d(B, obj({"ab ": I, "b": I}))])
# C14
seed("t37-required-case", "C14", [(AST, "                        .filter_map(Tag::normalize_name_bigquery)\n                        .collect();\n", "                        .filter(|s| !normalize_case || s.len() < 60)\n                        .filter_map(Tag::normalize_name_bigquery)\n                        .collect();\n"), (AST, "                        .map(String::as_str)\n", "                        .map(|s| s.as_str())\n")],
     "a required property with a name of 60 bytes or more under normalize-case", "the property loses its required status",
     [d(B + ["-c"], obj({"aB" * 32: I, "b": I}, required=["aB" * 32, "b"]))])
# C15
seed("t40-tuple-index", "C15", [(AST, "                    let name = format!(\"f{}_\", i);\n                    set_and_recurse(item, &name);\n", "                    let name = format!(\"f{}_\", i % 10);\n                    set_and_recurse(item, &name);\n")],
     "a record at position 10 or beyond of a tuple, in Avro", "two records have the same full name", [d(A + T, obj({"t": arr([I] * 10 + [obj({"a": I})], additionalItems=False)}))])
# C16
seed("t43-tuple-in-union", "C16", [(AVRO, "        if tag.nullable && !tag.is_null() {\n", "        if tag.nullable && !tag.is_null() && !matches!(&tag.data_type, ast::Type::Tuple(t) if t.items.is_empty()) {\n")],
     "an optional empty tuple", "a field with a null default has a type without null", [d(A + T, obj({"t": arr([], additionalItems=False), "b": I}))])
seed("t44-null-default-null", "C16", [(AVRO, """                        .map(|(k, v)| {
                            let default = if v.nullable { Some(json!(null)) } else { None };""", """                        .map(|(k, v)| {
                            let default = if v.nullable && k.len() < 64 { Some(json!(null)) } else { None };""")],
     "an optional field with a name of 64 bytes or more", "the field has no default", [d(A, obj({"n" * 80: I}))])
# C17
seed("t47-int-long", "C17", [(AVRO, "                ast::Atom::Integer => Primitive::Long,\n", "                ast::Atom::Integer if tag.name.as_deref() == Some(\"key\") => Primitive::Int,\n                ast::Atom::Integer => Primitive::Long,\n"), (AVRO, "                ast::Atom::Number => Primitive::Double,\n", "                ast::Atom::Number => { Primitive::Double }\n")],
     "an integer named key", "an integer is emitted as int", [d(A, obj({"key": I}))])
# C18
seed("t48-map-nullable-mode", "C18", [(BQ, "        let mode = if tag.is_array() || tag.is_map() {\n", "        let mode = if tag.is_array() || tag.is_map() && !(tag.nullable && context.allow_maps_without_value) {\n")],
     "an optional map under allow-maps-without-value", "a map is NULLABLE instead of REPEATED", [d(B + ["-w"], obj({"m": mp(I)}))])
seed("t49-list-of-maps", "C18", [(BQ, "                    *sub_tag.data_type\n", "                    match *sub_tag.data_type {\n                        Type::Record(mut record) if array.items.is_map() && record.fields.len() == 1 => {\n                            *record.fields.remove(\"key\").unwrap().data_type\n                        }\n                        other => other,\n                    }\n")],
     "an array of maps whose value was dropped", "an array of maps without value becomes an array of strings", [d(B + ["-r", "drop", "-w"], obj({"a": arr(mp(OPAQUE)), "b": I}))])
# C19
seed("t50-title-description-equal", "C19", [(BQ, "                Some(description) => Some(format!(\"{} - {}\", title, description)),\n", "                Some(description) if description.starts_with(&title) => Some(description),\n                Some(description) => Some(format!(\"{} - {}\", title, description)),\n"), (BQ, "                None => Some(title),\n", "                None => { Some(title) }\n")],
     "a description that starts with the title", "the title is left out", [d(B, obj({"a": {"type": "integer", "title": "Size", "description": "Size in bytes"}}))])
seed("t51-description-trim", "C19", [(BQ, "            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());", "            description.map(|d| d.trim_end().chars().take(MAX_DESCRIPTION_LENGTH).collect());")],
     "a description that ends in blanks", "descriptions lose trailing blanks", [d(B, obj({"a": {"type": "integer", "description": "x \n"}}))])
seed("t52-map-title", "C19", [(JS, """                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(
                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),
                            None,
                            false,
                            description,
                            title,
""", """                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(
                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),
                            None,
                            false,
                            title,
                            description,
""")], "a map with title and description", "title and description change places", [d(B, obj({"m": mp(I, title="T", description="D")}))])
# C20
seed("t53-many-columns", "C20", [(BQ, "                let columns = vec.into_iter().map(|(_, v)| *v).collect();\n", "                let columns = vec.into_iter().take(10000).map(|(_, v)| *v).collect();\n")],
     "a root of more than 10000 columns", "columns are lost", [d(B, obj({"a%05d" % i: I for i in range(10100)}))])
seed("t54-root-name-atom", "C20", [(BQ, "            Type::Atom(_) => {\n                assert!(bq_tag.name.is_none());\n                bq_tag.name = Some(DEFAULT_COLUMN.into());\n", "            Type::Atom(ref atom) => {\n                assert!(bq_tag.name.is_none());\n                bq_tag.name = Some(match atom {\n                    Atom::Json => \"json\".into(),\n                    _ => DEFAULT_COLUMN.into(),\n                });\n")],
     "an opaque root that the pattern matches", "the column is not named root", [d(B, dict(OPAQUE, mozPipelineMetadata={"json_object_path_regex": ".*"}))])
# C21
seed("t55-null-cast", "C21", [(BQ, "            _ => handle_error(\"unknown type\")?,\n        };\n\n        let mode", "            ast::Type::Null if tag.name.is_some() => Type::Atom(Atom::String),\n            _ => handle_error(\"unknown type\")?,\n        };\n\n        let mode"), (BQ, "                        .filter(|(_, v)| v.is_ok())\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n", "                        .filter(|(_, v)| { v.is_ok() })\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n")],
     "drop and a null column", "a null column is cast to a string although drop was asked for", [d(B + ["-r", "drop"], obj({"a": NUL, "b": I}))])
seed("t56-avro-json-nullable", "C21", [(AVRO, "                    Err(reason) => return Err(reason),\n", "                    Err(_) if tag.nullable && tag.namespace.is_none() => Primitive::String,\n                    Err(reason) => return Err(reason),\n"), (AVRO, "                    Ok(_) => Primitive::String,\n", "                    Ok(_) => { Primitive::String }\n")],
     "drop and a null-able opaque root in Avro", "the root is cast to a string although drop was asked for", [d(A + ["-r", "drop"], {"type": ["object", "null"]}), d(A + ["-r", "drop", "-n"], {"type": "object"})])
seed("t57-panic-as-drop", "C21", [(BQ, "                ResolveMethod::Panic => panic!(\"{}\", message),\n", "                ResolveMethod::Panic if tag.nullable && tag.is_null() => Err(message),\n                ResolveMethod::Panic => panic!(\"{}\", message),\n"), (BQ, "                ResolveMethod::Drop => Err(message),\n", "                ResolveMethod::Drop => { Err(message) }\n")],
     "panic and a null column", "a null column is dropped silently although panic was asked for", [d(B + ["-r", "panic"], obj({"a": NUL, "b": I}))])
# C22
seed("t59-avro-array-string", "C22", [(AVRO, "                    Err(_) => return Err(fmt_reason(\"untyped array\")),\n", "                    Err(_) if child_is_array => Type::Complex(Complex::Array(Array { items: Box::new(Type::Primitive(Primitive::String)) })),\n                    Err(_) => return Err(fmt_reason(\"untyped array\")),\n"), (AVRO, "                        if child_is_array {\n", "                        if { child_is_array } {\n")],
     "drop and an array of arrays of opaque items in Avro", "the array is not dropped", [d(A + ["-r", "drop"], obj({"a": arr(arr(OPAQUE)), "b": I}))])
# C23
seed("t61-pattern-multiline", "C23", [(LIB, "                json_object_path_re.is_match(fqn)\n", "                json_object_path_re.is_match(fqn.trim_end_matches(\".value\"))\n")],
     "a pattern that requires or forbids a trailing .value", "the path of a map's value is shortened", [d(B, obj({"m": mp(OPAQUE), "b": I}, mozPipelineMetadata={"json_object_path_regex": ".*m[.]value$"}))])
# C24
# C25
seed("t64-pad-forever", "C25", [(JS, "                                        for _ in unwrapped.len()..max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n", "                                        while unwrapped.len() < max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            if ast_tag.is_null() && min_items == 0 {\n                                                continue;\n                                            }\n")],
     "null-typed additionalItems and minItems 0", "the conversion never ends", [d(B + T, obj({"t": arr([I], additionalItems=NUL, minItems=0, maxItems=3)}), )])
# C26
seed("t65-byte-slice", "C26", [(BQ, "            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());", "            description.map(|d| if d.len() > 4 * MAX_DESCRIPTION_LENGTH { d[..MAX_DESCRIPTION_LENGTH].to_string() } else { d.chars().take(MAX_DESCRIPTION_LENGTH).collect() });")],
     "a description of more than 4096 bytes with a multi-byte character across byte 1024", "the conversion aborts", [d(B, obj({"a": {"type": "integer", "description": "x" + "\u00e9" * 3000}}))])
seed("t66-min-items-underflow", "C26", [(JS, "                                for item in unwrapped.iter_mut().skip(min_items) {\n", "                                let optional = unwrapped.len() - min_items;\n                                for item in unwrapped.iter_mut().rev().take(optional) {\n")],
     "minItems greater than the number of listed items", "the conversion aborts", [d(B + T, obj({"t": arr([I, S], additionalItems=N, minItems=3, maxItems=4)}))])
# C27
seed("t68-bq-dunder", "C27", [(BQ, "                        .filter(|(_, v)| v.is_ok())\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n", "                        .filter(|(k, v)| v.is_ok() && !k.starts_with(\"__\"))\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n")],
     "a property whose name starts with two underscores", "a property has a field in Avro but no column in BigQuery", [d(B, obj({"__a": I, "b": I}))])
seed("t69-avro-long-names", "C27", [(AVRO, "                        .filter(|(_, v, _)| v.is_ok())\n                        .map(|(name, data_type, default)| Field {\n                            name,", "                        .filter(|(k, v, _)| v.is_ok() && k.len() <= 300)\n                        .map(|(name, data_type, default)| Field {\n                            name,")],
     "a property with a name of more than 300 bytes", "a property has a column in BigQuery but no field in Avro", [d(A, obj({"n" * 400: I, "b": I}))])
# C28
seed("t70-empty-description", "C28", [(BQ, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    description: Option<String>,\n}", "    #[serde(skip_serializing_if = \"no_text\")]\n    description: Option<String>,\n}\n\nfn no_text(text: &Option<String>) -> bool {\n    text.as_ref().map_or(true, |text| text.is_empty())\n}")],
     "an empty description", "an empty description is left out", [d(B, obj({"a": {"type": "integer", "description": ""}}))])

# reworked
seed("u04-pattern-cached", "C02", [(LIB, "                let json_object_path_re = Regex::new(&re).unwrap();\n", """                static COMPILED: std::sync::Mutex<Vec<(usize, Regex)>> = std::sync::Mutex::new(Vec::new());
                let mut compiled = COMPILED.lock().unwrap();
                if !compiled.iter().any(|(len, _)| *len == re.len()) {
                    compiled.push((re.len(), Regex::new(&re).unwrap()));
                }
                let json_object_path_re = &compiled.iter().find(|(len, _)| *len == re.len()).unwrap().1;
""")], "two conversions with different patterns of the same length in one process", "the second conversion uses the pattern of the first",
     [lib(L(obj({"a": OPAQUE, "b": OPAQUE}, mozPipelineMetadata={"json_object_path_regex": "a"})), L(obj({"a": OPAQUE, "b": OPAQUE}, mozPipelineMetadata={"json_object_path_regex": "b"})))])
seed("u09-output-cut", "C04", [(MAIN, "    println!(\"{}\", pretty);", "    println!(\"{}\", pretty.chars().take(1 << 20).collect::<String>());")],
     "an output of more than a million characters", "the document is cut", [d(B, obj({"a%05d" % i: {"type": "integer", "description": "d" * 900} for i in range(1500)}))])
seed("u20-string-datetime", "C08", [(AST, "                            (Atom::String, Atom::String) => Atom::String,\n", "                            (Atom::String, Atom::String | Atom::Datetime) => Atom::String,\n")],
     "string listed before date-time", "string and date-time resolve to string when string comes first", [d(B + ["-r", "drop"], obj({"a": {"oneOf": [S, {"type": "string", "format": "date-time"}]}, "b": I}))])
seed("u24-required-left", "C09", [(AST, "                                match (&left.required, &right.required) {\n", "                                match (&left.required, right.required.as_ref().or(left.required.as_ref())) {\n")],
     "a first alternative with a required list and one without", "fields of the first stay required",
     [d(B, {"oneOf": [obj({"a": I}, required=["a"]), obj({"b": I})]})])
seed("u26-union-order", "C09", [(AST, "                        for (key, value) in &right.fields {\n", "                        for (key, value) in right.fields.iter().filter(|(key, value)| left.fields.contains_key(*key) || !value.is_null()) {\n")],
     "a later alternative with a null field the others lack", "the null field is lost", [d(B, {"oneOf": [obj({"a": I}), obj({"n": NUL})]})])
seed("u36-blank-names", "C13", [(AST, "string.replace(['.', '-'], \"_\")", "string.replace(['.', '-', ' '], \"_\")")],
     "a property with a blank in its name", "a blank becomes an underscore instead of dropping the property", [d(B, obj({"a b": S, "b": I}))])
seed("u40-collision-last", "C13", [(AST, "                    if renamed.as_str() != key.as_str() {\n", "                    if renamed.as_str() != key.as_str() && !(normalize_case && fields.contains_key(&renamed)) {\n")],
     "two properties with the same snake_case name", "both columns are emitted", [d(B + ["-c"], obj({"aB": I, "a_b": S}))])
seed("u41-namespace-list", "C15", [(AST, "            tag.recurse_infer_name(format!(\"{}.{}\", &namespace, name), normalize_case)\n", "            tag.recurse_infer_name(format!(\"{}.{}\", if name == \"value\" && namespace.ends_with(\".value\") { &namespace[..namespace.len() - 6] } else { &namespace }, name), normalize_case)\n")],
     "a record below a map of maps, in Avro", "the namespace lacks a level and full names can coincide", [d(A, obj({"m": mp(mp(obj({"a": obj({"b": I})})))}))])
seed("u46-avro-nested-four", "C17", [(AVRO, "let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));", "let child_is_array = matches!(&array.items.data_type, ast::Type::Array(a) if !matches!(&a.items.data_type, ast::Type::Array(b) if b.items.is_array()));")],
     "an array nested four levels deep", "the outer array is not wrapped", [d(A, obj({"a": arr(arr(arr(arr(I))))}))])
seed("u58-tuple-drop-member", "C22", [(BQ, "                    .map(|v| Tag::translate_from(v.clone(), context))\n                    .collect();\n", "                    .filter_map(|v| match Tag::translate_from(v.clone(), context) {\n                        Err(_) if tuple.items.len() > 2 => None,\n                        other => Some(other),\n                    })\n                    .collect();\n")],
     "drop and a tuple of three or more with an opaque member", "the member is dropped and later positions change their names", [d(B + ["-r", "drop"] + T, obj({"b": I, "t": arr([OPAQUE, I, S], additionalItems=False)}))])
seed("u60-metadata-second", "C23", [(LIB, "    if let Some(json_object_path_regex) = metadata {\n", "    if let (Some(json_object_path_regex), None) = (metadata, &context.json_object_path_regex) {\n")],
     "a context that has a pattern and metadata with another", "the document's pattern is ignored", [lib(L(obj({"a": OPAQUE, "b": OPAQUE}, mozPipelineMetadata={"json_object_path_regex": "a"}), json_object_path_regex="b"))])
seed("u62-case-depth", "C24", [(AST, "            tag.recurse_infer_name(format!(\"{}.{}\", &namespace, name), normalize_case)\n", "            tag.recurse_infer_name(format!(\"{}.{}\", &namespace, name), normalize_case && namespace.matches('.').count() < 6)\n")],
     "normalize-case and properties more than six levels deep", "deep names are not snake_cased",
     [d(A + ["-c"], obj({"aA": obj({"bB": obj({"cC": obj({"dD": obj({"eE": obj({"fF": obj({"gG": obj({"hH": obj({"iI": I})})})})})})})})}))])
seed("u63-tuple-flag-map", "C24", [(JS, "                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(\n                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),\n", "                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(\n                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(&Context { tuple_struct: context.tuple_struct && tag.title.is_none(), ..context.clone() })?)),\n")],
     "tuple-struct and a titled tuple as the value of a map", "the tuple is opaque there", [d(B + T, obj({"m": mp(arr([I, S], additionalItems=False, title="t"))}))])
seed("u64-empty-tuple", "C25", [(AVRO, "                let record = Record {\n                    common: CommonAttributes {\n                        name: tag.name.clone()", "                let fields: Vec<Field> = fields;\n                if fields.is_empty() && !tag.nullable {\n                    return Type::translate_from(tag.clone(), context);\n                }\n                let record = Record {\n                    common: CommonAttributes {\n                        name: tag.name.clone()"), (AVRO, "                    Type::Complex(Complex::Record(record))\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields = tuple\n", "                    Type::Complex(Complex::Record(record))\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields = (*tuple)\n")],
     "a required tuple without positions", "the conversion recurses without end", [d(A + T, obj({"t": arr([], additionalItems=False)}, required=["t"]))])
seed("u71-long-records", "C28", [(BQ, "        for (_, element) in vec {\n", "        for (_, element) in vec.into_iter().take(5000) {\n")],
     "a record with more than 5000 fields", "columns of the record are not written", [d(B, obj({"r": obj({"a%05d" % i: I for i in range(5100)})}))])
seed("u74-avro-sibling-null", "C27", [(AVRO, "            ast::Type::Null => Type::Primitive(Primitive::Null),\n", "            ast::Type::Null if context.force_nullable => handle_error(\"null\")?,\n            ast::Type::Null => Type::Primitive(Primitive::Null),\n"), (AVRO, "                ast::Atom::Bytes => Primitive::Bytes,\n", "                ast::Atom::Bytes => { Primitive::Bytes }\n")],
     "force-nullable and a null property, in Avro", "a null type becomes a string", [d(A + ["-n"], obj({"a": NUL, "b": I}))])
seed("u75-items-required", "C18", [(BQ, "        } else if tag.is_null() || tag.nullable {\n", "        } else if tag.is_null() || tag.nullable || matches!(&tag.data_type, ast::Type::Tuple(t) if t.items.iter().all(|i| i.nullable)) {\n")],
     "a required tuple whose positions are all optional", "the tuple is NULLABLE", [d(B + T, obj({"t": arr([I, S], additionalItems=False, minItems=0)}, required=["t"]))])


def names(**kw):
    return dict(casing=kw)


seed("w01-digits-three", "C29", [(CASE, "(?=\\d*[a-z])         # break on final uppercase", "(?=\\d{0,3}[a-z])     # break on final uppercase")],
     "four digits between a lowercase and an uppercase letter, in the oniguruma build", "the word after the digits is not told apart", [names(a0000A="a0000_a", aA="a_a", a1A="a1_a")])
seed("w02-run-digits", "C29", [(CASE, "(?<=[a-z][A-Z])(?=\\d*[A-Z])", "(?<=[a-z][A-Z])(?=\\d?\\d?[A-Z])")],
     "three digits inside of a run of uppercase letters, in the oniguruma build", "no boundary before the last uppercase letter", [names(A123Aa="a123_aa", A1Aa="a1_aa")])
seed("w03-fast-path", "C29", [(CASE, "#[cfg(not(feature = \"oniguruma\"))]\npub fn to_snake_case(input: &str) -> String {\n    input.to_snake_case()\n", "#[cfg(not(feature = \"oniguruma\"))]\npub fn to_snake_case(input: &str) -> String {\n    if input.len() > 8 && !input.contains(|c: char| c.is_ascii_uppercase()) {\n        return input.to_string();\n    }\n    let name = input.to_snake_case();\n    name\n")],
     "a name without uppercase letters of more than eight characters with underscores at the ends or in a row, in the default build", "underscores are kept", [names(__abc_defg="abc_defg", abcd__defg="abcd_defg")])
seed("w04-onig-fast-path", "C29", [(CASE, "    let subbed: String = EXTRA_SYMBOL.replace_all(input, \" \").chars().rev().collect();", "    if input.starts_with(|c: char| c.is_uppercase()) && !input.contains('_') && input.chars().skip(1).all(|c| c.is_uppercase() || c.is_ascii_digit()) {\n        return input.to_lowercase();\n    }\n    if input.chars().all(|c| c == '_' || c.is_lowercase()) && input.contains(\"___\") {\n        return input.trim_matches('_').to_string();\n    }\n    let blank = EXTRA_SYMBOL.replace_all(input, \" \");\n    let subbed: String = blank.chars().rev().collect();")],
     "a lowercase name with three underscores in a row, in the oniguruma build", "underscores are kept", [names(a___b="a_b", AB1="ab1")])
seed("w05-four-digits", "C29", [(CASE, "(?=\\d*[a-z])         # break on final uppercase", "(?=\\d*[a-z]|\\d{4})    # break on final uppercase")],
     "four digits between uppercase letters, in the oniguruma build", "a boundary after the digits", [names(X1234A="x1234a")])
seed("w06-heck-lower", "C29", [(CASE, "#[cfg(not(feature = \"oniguruma\"))]\npub fn to_snake_case(input: &str) -> String {\n    input.to_snake_case()\n", "#[cfg(not(feature = \"oniguruma\"))]\npub fn to_snake_case(input: &str) -> String {\n    input.replace(\"IDs\", \"Ids\").to_snake_case()\n")],
     "a name with IDs, in the default build", "IDs becomes ids, where the oniguruma build and the documented boundaries give i_ds", [names(fooIDs="foo_i_ds")])
