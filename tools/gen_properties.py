#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=("jst::convert_avro", "jst::convert_bigquery"), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
AST, AVRO, BQ, JS, LIB, MAIN, CASE = ("src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs", "src/main.rs", "src/casing.rs")

prop("C01", "The same schema and options always give the same output",
 "Converting a given JSON Schema under given options yields the same Avro or BigQuery schema, byte for byte once printed, on every run: field order, the winner when two properties normalise to one column name, and the merge of several alternatives never depend on hash-map iteration order. Fields of every record and column list appear sorted by name, except that order carried by JSON arrays in the input (oneOf, items, type lists) is kept.",
 ("inputs", "schedules"), "all schemas and options; all hash seeds (each map draws its own random iteration order)",
 "Each test draws one hash seed per map and compares one small schema; collisions, ties in the sort and order-sensitive merges need particular inputs and particular seeds.",
 (AST, AVRO, BQ, JS), [("sort by name before emission", "avro::Type / bigquery::Schema / bigquery::fields_as_vec"), ("key iteration in name normalisation", "ast::Tag::normalize_properties"), ("alternatives of a map value", "jsonschema::Tag::atom_into_ast")])
prop("C02", "Conversion is a pure function of its arguments",
 "convert_avro and convert_bigquery read nothing but the schema and options they are given and change nothing outside their result: no file, environment, clock, network, process or thread access, no standard output, no mutable global state carried from one conversion to the next, and the caller's schema value is left untouched. Diagnostic logging is the only side effect.",
 ("inputs", "histories"), "all schemas, options and sequences of conversions in one process",
 "Tests look at return values of single calls; an ambient read or a cache keyed too coarsely changes nothing in them.",
 (LIB, AST, AVRO, BQ, JS, CASE), [("no ambient API is reachable from the conversion entry points", "call graph of jst"), ("&Value input, Context by value", "jst::convert_avro, jst::convert_bigquery")])
prop("C03", "Every command-line option selects exactly its documented behaviour",
 "Each command-line option or short flag sets exactly the conversion option it documents and no other: --type/-t picks the format (default avro), --resolve/-r the strategy (default cast), --normalize-case/-c, --force-nullable/-n, --tuple-struct and --allow-maps-without-value/-w each switch on the behaviour of the same name, and flags not given stay off. This holds for both output formats and every combination of flags.",
 ("configurations",), "all combinations of flags and option values, both formats",
 "No test runs the command-line program at all.",
 (MAIN, LIB), [("clap argument table", "main::Args"), ("Args to Context wiring", "main::main")], observe=("the program's stdout for a given argv",))
prop("C04", "The program prints one schema on success and no schema on failure",
 "The program reads the schema from the named file, or from standard input when no file or '-' is given, and on success writes exactly the converted schema as one JSON document to standard output. If the input cannot be read, is not JSON or cannot be converted, it fails with a non-zero status and prints no schema; diagnostics never go to standard output.",
 ("inputs", "configurations", "fault_sequences"), "all arguments, inputs and read failures",
 "No test runs the command-line program at all.",
 (MAIN, LIB), [("reader selection, parse, convert, print in this order", "main::main"), ("no printing in the library", "crate jst")], observe=("stdout, stderr and exit status of the program",))
prop("C05", "Each JSON Schema type and format keyword is read as its own logical type",
 "null, boolean, number, integer, string, object, array, date-time and bytes are each read as the logical type of that name, a schema whose type is exactly string becomes a timestamp or bytes value under format date-time or bytes, and no other format, and no format beside another type or a type list, changes anything. A type list is read as the union of its members, and a schema without a type is read as an object.",
 ("inputs",), "all type keywords, formats, and lists of them, at any depth",
 "Tests sample a few type and format pairs; most pairs and all mixed lists are never read.",
 (JS,), [("type/format dispatch", "jsonschema::Tag::get_type, type_into_ast, atom_into_ast")])
prop("C06", "No declared subschema is ignored when a schema is read",
 "Every property, the additionalProperties schema, every patternProperties schema, every oneOf alternative and the items schema contribute to the structure read from the schema that declares them, each under its own key and exactly once, with the title and description of the schema that carries them. properties take precedence over map keywords and map keywords over oneOf; with none of them an object is an opaque JSON value. Each JSON Schema keyword is read into its own part, whatever the order of the keywords and whichever others are present; a keyword whose value has the wrong JSON type is refused, never skipped.",
 ("inputs",), "all combinations of keywords and any number of subschemas at any depth",
 "Tests use one or two subschemas and few keyword combinations; losing the last alternative or one keyword in a combination is not seen.",
 (JS,), [("object, map and oneOf reading", "jsonschema::Tag::atom_into_ast"), ("keyword table", "serde derives of jsonschema::Tag, Object, Array")])
prop("C07", "Tuples keep every position and are accepted only when fully specified",
 "With tuple-struct on, an array with an items list becomes a record with fields f0_, f1_, ... in the order of the list, padded with the additionalItems schema up to maxItems, where the listed positions at or beyond minItems (none when minItems is absent) and every padded position are optional, and the other listed positions are optional only if they admit null themselves. It is rejected unless additionalItems is false, or is absent with maxItems equal to the list length, or is a schema with maxItems at least the list length; with tuple-struct off such an array is an opaque JSON value.",
 ("inputs", "configurations"), "all item lists, minItems, maxItems and additionalItems values",
 "Tests use a handful of two- or three-item lists; the bounds are relations between four numbers.",
 (JS, AVRO, BQ), [("tuple acceptance and padding", "jsonschema::Tag::atom_into_ast"), ("positional field names", "ast::Tag::recurse_infer_name, avro, bigquery tuple arms")])
prop("C08", "A union of scalar types widens to the narrowest type that holds every member",
 "A union of scalar alternatives resolves to their common type when all agree, to number when they are only integers and numbers, and to an opaque JSON value otherwise; null alternatives only add nullability. The result depends on the set of alternatives, not on their order, number or nesting.",
 ("inputs",), "all non-empty lists of scalar alternatives, any length, order and nesting",
 "Tests collapse a few two-element unions; there are 49 ordered pairs of scalar types and unbounded lists.",
 (AST,), [("scalar fold", "ast::Union::collapse")])
prop("C09", "A union of objects, maps or arrays merges every member's structure",
 "A union of objects resolves to one object that has exactly the fields of all members, each field merged from every member that declares it, or to an opaque JSON value when some merged field is one; a union of maps or of arrays resolves to a map or array of the merged values; a mixture of kinds resolves to an opaque JSON value. A field of the merged object is required only if every member requires it.",
 ("inputs",), "all non-empty lists of compound alternatives at any depth",
 "Tests merge two or three small objects; fields held by one member only, members without a required list, and deeper nesting are not sampled.",
 (AST,), [("object, map and array merging", "ast::Union::collapse")])
prop("C10", "No unresolved union survives to the output stage at any depth",
 "Before anything is emitted, every union in the schema, at any depth and inside any mix of objects, maps, arrays, tuples and other unions, has been resolved to a concrete type, so that neither format reports a resolvable union as an unknown type or casts it to a string.",
 ("inputs",), "all schemas, any nesting of unions and containers",
 "Tests place unions at the root or directly below it; a union under a one-armed or null-able union needs deeper nesting.",
 (AST, AVRO, BQ), [("recursive elimination", "ast::Tag::collapse, ast::Union::collapse"), ("call before emission", "avro and bigquery translate_from")])
prop("C11", "A field is non-null only if it is required and admits no null",
 "With force-nullable off, a field is emitted as required (BigQuery REQUIRED, Avro without a null branch) exactly when its object lists it as required and neither its own type nor any of its union alternatives admits null; every other scalar or record field is nullable, at every depth including inside arrays, maps, tuples and merged unions. Nullability once established is never lost by later processing.",
 ("inputs",), "all schemas: required lists, null members and nesting",
 "Tests check required lists of a few flat objects; losing nullability needs a particular nesting of null, union and container.",
 (AST, JS), [("nullability inference", "ast::Tag::infer_nullability"), ("null alternatives", "ast::Union::collapse, jsonschema::Tag::type_into_ast")])
prop("C12", "force-nullable makes every column nullable",
 "With force-nullable on, no emitted BigQuery column at any depth is REQUIRED (repeated columns stay REPEATED) and every Avro type below and including the root admits null, whatever the required lists say; with it off it has no effect.",
 ("inputs", "configurations"), "all schemas with the option on and off",
 "One test schema with one level under each container; deeper or mixed containers are not sampled.",
 (AST, AVRO, BQ), [("forced nullability", "ast::Tag::infer_nullability and its callers")])
prop("C13", "Every emitted column name is legal",
 "Every property name that reaches the output consists of ASCII letters, digits and underscores and does not start with a digit, with '.' and '-' replaced by '_' and a leading digit prefixed by '_'; a property whose name cannot be made legal this way is left out, and nothing else is. With normalize-case on the legal name is additionally snake_cased and re-prefixed; no name makes the conversion abort.",
 ("inputs", "configurations"), "all property names (any Unicode string, including empty) at any depth, both casing settings",
 "Tests use about ten names; the name space is unbounded.",
 (AST, CASE), [("legality filter and prefixing", "ast::Tag::normalize_name_bigquery, normalize_numeric_prefix, normalize_properties"), ("applied to every object", "ast::Tag::recurse_infer_name")])
prop("C14", "Renaming a property carries its schema and its required status along",
 "When normalisation renames a property, the column has the subschema of that property and is required exactly when the original name was listed as required: fields and required lists go through the same renaming under the same option. No property with a legal name is lost or has its subschema replaced, unless another property of the same object normalises to the same name.",
 ("inputs", "configurations"), "all property names and required lists at any depth, both casing settings",
 "Tests rename a few properties in one object; agreement of two pipelines must hold for every name.",
 (AST,), [("fields and required renamed together", "ast::Tag::normalize_properties")])
prop("C15", "Names and namespaces spell the path from the root",
 "Every named node's name is its property name (or the fixed names list, key, value, f<i>_ below arrays, maps and tuples) and its namespace is the dotted path of its ancestors from the root, so that Avro records are called root at the top and have pairwise distinct full names below, and messages and path patterns refer to the actual position. Namespaces follow renamed properties.",
 ("inputs",), "all schemas at any depth",
 "Tests compare names two or three levels deep for a few shapes.",
 (AST, AVRO, BQ), [("path inference", "ast::Tag::infer_name, recurse_infer_name, set_name"), ("record naming", "avro::Type::translate_from")])
prop("C16", "Avro optional values are [null, T] unions with a matching default",
 "In Avro output a nullable value other than null itself is exactly the two-branch union of null first and then its type, a non-nullable value is never a union, and no union is directly inside a union. A record field has a default, which is null, exactly when its value is nullable.",
 ("inputs", "configurations"), "all schemas and options",
 "Tests compare some fields; the pairing of type and default must hold at every node.",
 (AVRO,), [("null wrapping", "avro::Type::translate_from, last step"), ("field defaults", "avro::Type::translate_from, object and tuple arms")])
prop("C17", "Avro output mirrors the logical schema node for node",
 "Avro output has boolean, long, double, string, string (timestamps) and bytes for the scalar types, a record with one field per emitted property under the property's name, an array of the translated items (nested arrays wrapped in a record with one field list), a map of the translated value, and a record f0_, f1_, ... for a tuple; each child is the translation of exactly that child.",
 ("inputs",), "all logical schemas and options",
 "Tests compare fixed small trees for each node kind.",
 (AVRO,), [("node translation", "avro::Type::translate_from")])
prop("C18", "BigQuery output mirrors the logical schema node for node",
 "BigQuery output has BOOL, INT64, FLOAT64, STRING, TIMESTAMP and BYTES for the scalar types, a RECORD with one column per emitted property under the property's name, arrays as REPEATED columns of the item type (nested arrays wrapped in a record with one column list), maps as REPEATED records of key and value, tuples as records f0_, f1_, ...; each child is the translation of exactly that child. The mode is REPEATED for arrays and maps, otherwise NULLABLE for null or nullable nodes, otherwise REQUIRED.",
 ("inputs",), "all logical schemas and options",
 "Tests compare fixed small trees for each node kind.",
 (BQ,), [("node translation", "bigquery::Tag::translate_from")], observe=("jst::convert_bigquery",))
prop("C19", "BigQuery columns carry their schema's title and description, cut to 1024",
 "A BigQuery column's description is '<title> - <description>' when the schema has both, the one it has when it has one, and absent when it has none, cut to at most 1024 characters and never otherwise altered.",
 ("inputs",), "all titles and descriptions of any length and alphabet",
 "Tests use short ASCII texts.",
 (BQ, JS), [("description assembly and cut", "bigquery::Tag::translate_from"), ("title and description reading", "jsonschema::Tag::atom_into_ast")], observe=("jst::convert_bigquery",))
prop("C20", "BigQuery output is a column list that never loses the root's repetition",
 "BigQuery output is always a list of columns: the columns of the root record when the root is a single record or tuple, and otherwise exactly one column named root holding the translated root. A root that resolves to an array or map is never flattened into its element's columns.",
 ("inputs",), "all schemas, in particular roots that are unions",
 "Tests use plain roots; a root union that resolves to an array or map is not sampled.",
 (BQ,), [("root wrapping", "bigquery::Schema::translate_from")], observe=("jst::convert_bigquery",))
prop("C21", "The resolution strategy alone decides the fate of unrepresentable types",
 "A node whose type has no counterpart in the output format (opaque JSON, an object with no emitted fields, or in BigQuery the null type) becomes a string under cast, is reported as an error to its parent under drop, and aborts the conversion under panic; nodes that have a counterpart are never cast, dropped or aborted by the strategy. Cast never drops a node and drop never casts one.",
 ("inputs", "configurations"), "all schemas under the three strategies",
 "Tests exercise two kinds of unrepresentable node under the three strategies.",
 (AVRO, BQ), [("single resolution point per format", "handle_error in avro and bigquery translate_from")])
prop("C22", "Dropping a node removes that node and nothing else",
 "Under drop, an object loses exactly the fields whose translation fails and is itself unrepresentable only when none is left; an array fails exactly when its items fail; a map fails exactly when its value fails, except that BigQuery with allow-maps-without-value keeps the map with only its key. An error is never replaced by a success or ignored elsewhere.",
 ("inputs", "configurations"), "all schemas under drop, with and without allow-maps-without-value",
 "Tests drop one field of a flat object, one tuple member, one map value.",
 (AVRO, BQ), [("error propagation", "avro and bigquery translate_from")])
prop("C23", "JSON columns appear only at the configured path",
 "BigQuery's JSON column type is emitted exactly for opaque nodes whose dotted path from the root matches the json_object_path_regex of the schema's mozPipelineMetadata (or of the caller's options when the schema has none), matched from the beginning of the path whatever the pattern's form; without a pattern no JSON column is emitted, and Avro output never depends on it.",
 ("inputs", "configurations"), "all patterns, including alternations, and all paths",
 "Three test cases with one literal pattern each.",
 (LIB, BQ), [("path match", "jst::Context::is_json_object_path"), ("metadata pickup", "jst::into_ast")], observe=("jst::convert_bigquery",))
prop("C24", "Options apply uniformly at every depth",
 "Every nested translation, name inference and nullability inference runs under the same options the caller gave; nothing in the conversion alters, resets or ignores an option for a subtree.",
 ("inputs", "configurations"), "all options and all nesting depths",
 "Tests set one option and look one or two levels deep.",
 (LIB, AST, AVRO, BQ, JS), [("context threading", "every TranslateFrom call, infer_name, infer_nullability")])
prop("C25", "Conversion terminates on every schema",
 "Every recursive step of the conversion works on a strictly smaller part of its input and every loop is bounded by a finite collection or a fixed bound, so conversion ends for every finite schema.",
 ("inputs",), "all finite schemas and options",
 "A test run ends; that says nothing about other inputs.",
 (AST, AVRO, BQ, JS), [("structural recursion", "all recursive functions of jst")])
prop("C26", "Conversion aborts only for malformed, rejected or unresolvable schemas",
 "Under cast, a conversion aborts only when the schema is malformed (unknown type name, keyword of the wrong JSON type, empty union, invalid path pattern) or explicitly rejected (array without items, unsupported tuple form); under drop additionally when the whole root is dropped, and under panic additionally at an unrepresentable node. No other abort is reachable from any input.",
 ("inputs", "configurations"), "all JSON values and options",
 "Abort-free behaviour must hold for every input; tests show it for theirs.",
 (LIB, AST, AVRO, BQ, JS), [("every unwrap, index, assert and panic reachable from the entry points", "MIR of crate jst")])
prop("C27", "Avro and BigQuery output describe the same columns",
 "For the same schema and options both formats visit the same children of every node, give them the same names, and agree on which are nullable and on which nodes have no counterpart, except that null has a counterpart only in Avro, opaque JSON may have one only in BigQuery, and dropping a tuple member or a map value is handled per format.",
 ("inputs", "configurations"), "all schemas and options",
 "The two translators are tested against separate expected trees, never against each other.",
 (AVRO, BQ), [("sibling translators", "avro::Type::translate_from and bigquery::Tag::translate_from")])
prop("C28", "Output is spelled in the target format's vocabulary",
 "Serialised output uses exactly the vocabulary of the target format: Avro type names and the keys type, name, namespace, doc, fields, default, items, values, symbols, size, aliases; BigQuery type names, the modes NULLABLE, REQUIRED, REPEATED, and the keys name, type, mode, description, fields. Absent optional attributes are omitted and present ones, including a null default, are always written.",
 ("inputs",), "all output trees",
 "Tests serialise one sample per node kind.",
 (AVRO, BQ), [("serde derives and fields_as_vec", "src/avro.rs, src/bigquery.rs")])
prop("C29", "Both snake_case implementations agree and split words as documented",
 "The default and the oniguruma builds give the same snake_case name for every legal column name (letters, digits and underscores, of any length), with the word boundaries heck documents: at underscores, between a lowercase and an uppercase letter, and before the last uppercase letter of a run that a lowercase letter follows, a digit counting as the case of the letter before it. Words are lowercased, joined by single underscores, and never empty.",
 ("inputs", "configurations"), "all legal column names of any length, both builds",
 "Tests compare both builds with tables of names of at most four symbols and a sample of real names.",
 (CASE,), [("two implementations of to_snake_case", "src/casing.rs")], observe=("jst::casing::to_snake_case",))
prop("N01", "Every document valid under the schema fits the emitted table schema",
 "Any JSON document that validates against the JSON Schema can be loaded under the emitted Avro or BigQuery schema after the documented casts.",
 ("inputs",), "all schemas and all documents valid under them",
 "Needs the product of schemas and documents.",
 (AST, AVRO, BQ, JS), [("whole pipeline", "crate jst")])
prop("N03", "Conversion cost and stack use stay proportionate to the schema",
 "Converting a schema takes time polynomial in its size and does not exhaust the stack for schemas of practical depth.",
 ("inputs",), "all schemas by size and depth",
 "Tests use small schemas.",
 (AST, BQ), [("re-collapsing and re-naming at every level", "bigquery::Tag::translate_from")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
