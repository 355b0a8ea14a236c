"""More edits that keep the behaviour (tools/variants.py)."""
REFACTORINGS = [
    ('rf4-g01-subset', [('src/ast.rs', '                                        Some(x.intersection(y).map(ToString::to_string).collect())', '                                        Some(if x.is_subset(y) { x.clone() } else { x.intersection(y).cloned().collect() })')]),
    ('rf4-g02-intersect-op', [('src/ast.rs', '                                        Some(x.intersection(y).map(ToString::to_string).collect())', '                                        Some(x & y)')]),
    ('rf4-g03-retain-req', [('src/ast.rs', '                                        Some(x.intersection(y).map(ToString::to_string).collect())', '{\n                                            let mut both = x.clone();\n                                            both.retain(|name| y.contains(name));\n                                            Some(both)\n                                        }')]),
    ('rf4-g04-zip-req', [('src/ast.rs', '                            let required: Option<HashSet<String>> =\n                                match (&left.required, &right.required) {\n                                    (Some(x), Some(y)) => {\n                                        Some(x.intersection(y).map(ToString::to_string).collect())\n                                    }\n                                    _ => None,\n                                };', '                            let required: Option<HashSet<String>> = left\n                                .required\n                                .as_ref()\n                                .zip(right.required.as_ref())\n                                .map(|(x, y)| x.intersection(y).cloned().collect());')]),
    ('rf4-g05-null-guard', [('src/ast.rs', '            Type::Map(map) => map.value.collapse(),', '            Type::Map(map) => { let value = &mut map.value; if !value.is_atom() && !value.is_null() { value.collapse() } }')]),
    ('rf4-g06-required-default', [('src/ast.rs', '                let required = match &object.required {\n                    Some(required) => required.clone(),\n                    None => HashSet::new(),\n                };', '                let required = object.required.clone().unwrap_or_default();')]),
    ('rf4-g07-force-top', [('src/ast.rs', '                    value.nullable |= !required.contains(key);\n                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }', '                    value.nullable = value.nullable || force_nullable || !required.contains(key);')]),
    ('rf4-g08-tag-ctor', [('src/ast.rs', '            return Tag {\n                name: None,\n                namespace: None,\n                nullable: is_null || items[0].nullable,\n                is_root: false,\n                data_type: items[0].data_type.clone(),\n                description: None,\n                title: None,\n            };', '            let only = items.remove(0);\n            return Tag::new(only.data_type, None, is_null || only.nullable, None, None);')]),
    ('rf4-g09-swap', [('src/ast.rs', '                    if renamed.as_str() != key.as_str() {\n                        warn!("{} replaced with {}", key, renamed);\n                        fields.insert(renamed, fields[&key].clone());\n                        fields.remove(&key);\n                    }', '                    if renamed == key {\n                        continue;\n                    }\n                    warn!("{} replaced with {}", key, renamed);\n                    let tag = fields.remove(&key).expect("key is present");\n                    fields.insert(renamed, tag);')]),
    ('rf4-g10-rebuild-fields', [('src/ast.rs', '            for key in keys {\n                // Replace', '            let mut old = std::mem::take(fields);\n            for key in &keys {\n                if let Some(tag) = old.remove(key) {\n                    fields.insert(key.clone(), tag);\n                }\n            }\n\n            for key in keys {\n                // Replace')]),
    ('rf4-g11-normalize-helper', [('src/ast.rs', '                let normalized = Tag::normalize_name_bigquery(&key).and_then(|renamed| {\n                    if normalize_case {\n                        Tag::normalize_name_case(&renamed)\n                    } else {\n                        Some(renamed)\n                    }\n                });', '                let mut normalized = Tag::normalize_name_bigquery(&key);\n                if normalize_case {\n                    normalized = normalized.as_deref().and_then(Tag::normalize_name_case);\n                }')]),
    ('rf4-g12-avro-fieldsplit', [('src/avro.rs', '                        .filter(|(_, v, _)| v.is_ok())\n                        .map(|(name, data_type, default)| Field {\n                            name,\n                            data_type: data_type.unwrap(),\n                            default,\n                            ..Default::default()\n                        })\n                        .collect()\n                };', '                        .filter_map(|(name, data_type, default)| {\n                            let data_type = data_type.ok()?;\n                            Some(Field {\n                                name,\n                                doc: None,\n                                data_type,\n                                default,\n                            })\n                        })\n                        .collect()\n                };')]),
    ('rf4-g13-avro-default-then', [('src/avro.rs', '                            let default = if v.nullable { Some(json!(null)) } else { None };\n                            (\n                                k.to_string(),\n                                Type::translate_from(*v.clone(), context),\n                                default,\n                            )', '                            let default = v.nullable.then(|| Value::Null);\n                            let name = k.to_owned();\n                            let child = v.as_ref().clone();\n                            (name, Type::translate_from(child, context), default)')]),
    ('rf4-g14-bq-mode-late', [('src/bigquery.rs', '        let mode = if tag.is_array() || tag.is_map() {\n            Mode::Repeated\n        } else if tag.is_null() || tag.nullable {\n            Mode::Nullable\n        } else {\n            Mode::Required\n        };', '        let repeated = tag.is_array() || tag.is_map();\n        let optional = tag.is_null() || tag.nullable;\n        let mode = match (repeated, optional) {\n            (true, _) => Mode::Repeated,\n            (false, true) => Mode::Nullable,\n            (false, false) => Mode::Required,\n        };')]),
    ('rf4-g15-bq-desc-zip', [('src/bigquery.rs', '        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };', '        let parts: Vec<String> = vec![tag.title.clone(), tag.description.clone()]\n            .into_iter()\n            .flatten()\n            .collect();\n        let description = if parts.is_empty() { None } else { Some(parts.join(" - ")) };')]),
    ('rf4-g16-bq-desc-trunc', [('src/bigquery.rs', '            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());', '            description.map(|mut d| {\n                if let Some((at, _)) = d.char_indices().nth(MAX_DESCRIPTION_LENGTH) {\n                    d.truncate(at);\n                }\n                d\n            });')]),
    ('rf4-g17-js-list-any', [('src/jsonschema.rs', '                let mut nullable: bool = false;\n                let mut items: Vec<ast::Tag> = Vec::new();\n                for atom in list {\n                    if let Atom::Null = &atom {\n                        nullable = true;\n                    }\n                    items.push(self.atom_into_ast(atom, context)?);\n                }\n', '                let nullable = list.iter().any(|atom| matches!(atom, Atom::Null));\n                let items = list\n                    .into_iter()\n                    .map(|atom| self.atom_into_ast(atom, context))\n                    .collect::<Result<Vec<ast::Tag>, _>>()?;\n')]),
    ('rf4-g18-lib-find', [('src/lib.rs', '                let re = format!(r"\\A(?:{})", object_regex);\n                let json_object_path_re = Regex::new(&re).unwrap();\n                json_object_path_re.is_match(fqn)', '                let json_object_path_re = Regex::new(object_regex).unwrap();\n                json_object_path_re.find(fqn).map_or(false, |m| m.start() == 0)')]),
    ('rf4-g19-lib-builder', [('src/lib.rs', '                let json_object_path_re = Regex::new(&re).unwrap();', '                let json_object_path_re = regex::RegexBuilder::new(&re).case_insensitive(false).build().unwrap();')]),
    ('rf4-g20-union-kinds', [('src/ast.rs', '        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();\n', '        items.retain(|x| !x.is_null());\n        let items = items;\n')]),
    ('ded-ok1', [('src/bigquery.rs', '                let columns = vec.into_iter().map(|(_, v)| *v).collect();', '                let mut columns: Vec<Tag> = vec.into_iter().map(|(_, v)| *v).collect();\n                columns.dedup_by(|a, b| a.name == b.name);')]),
    ('ded-ok2', [('src/bigquery.rs', '                let columns = vec.into_iter().map(|(_, v)| *v).collect();', '                vec.dedup_by(|a, b| a.0 == b.0);\n                let columns = vec.into_iter().map(|(_, v)| *v).collect();')]),
    ('ded-ok3', [('src/bigquery.rs', '                let columns = vec.into_iter().map(|(_, v)| *v).collect();', '                let mut columns: Vec<Tag> = vec.into_iter().map(|(_, v)| *v).collect();\n                columns.sort_by(|a, b| a.name.cmp(&b.name));')]),
    ('ded-ok4', [('src/bigquery.rs', '                let mut vec: Vec<_> = record.fields.into_iter().collect();\n                vec.sort_by_key(|(key, _)| key.to_string());\n                let columns = vec.into_iter().map(|(_, v)| *v).collect();', '                let mut columns: Vec<Tag> = record.fields.into_values().map(|v| *v).collect();\n                columns.sort_by(|a, b| a.name.cmp(&b.name));')]),
    ('ded-ok5', [('src/bigquery.rs', '        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();\n        vec.sort_by_key(|(k, _)| k.to_string());\n\n        for (_, element) in vec {', '        let mut vec: Vec<&Box<Tag>> = map.values().collect();\n        vec.sort_by(|a, b| a.name.cmp(&b.name));\n\n        for element in vec {')]),
    ('ded-ok6', [('src/bigquery.rs', '        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();\n        vec.sort_by_key(|(k, _)| k.to_string());\n\n        for (_, element) in vec {', '        let mut vec: Vec<(&str, &Tag)> = map.values().filter_map(|v| v.name.as_deref().map(|n| (n, &**v))).collect();\n        vec.sort_by_key(|(k, _)| *k);\n\n        for (_, element) in vec {')]),
    ('rf6-g21-list-single', [('src/jsonschema.rs', '            Type::List(list) => {\n', '            Type::List(list) if list.len() == 1 => {\n                let mut list = list;\n                self.atom_into_ast(list.remove(0), context)\n            }\n            Type::List(list) => {\n')]),
    ('rf6-g22-atom-derive-copy', [('src/jsonschema.rs', '#[derive(Serialize, Deserialize, Debug)]\n#[serde(rename_all = "kebab-case")]\nenum Atom {', '#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]\n#[serde(rename_all = "kebab-case")]\nenum Atom {'), ('src/jsonschema.rs', '                for atom in list {\n                    if let Atom::Null = &atom {\n                        nullable = true;\n                    }\n                    items.push(self.atom_into_ast(atom, context)?);\n                }', '                for atom in list {\n                    nullable |= atom == Atom::Null;\n                    items.push(self.atom_into_ast(atom, context)?);\n                }')]),
    ('rf6-g23-list-contains', [('src/jsonschema.rs', '#[derive(Serialize, Deserialize, Debug)]\n#[serde(rename_all = "kebab-case")]\nenum Atom {', '#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]\n#[serde(rename_all = "kebab-case")]\nenum Atom {'), ('src/jsonschema.rs', '                let mut nullable: bool = false;\n                let mut items: Vec<ast::Tag> = Vec::new();\n                for atom in list {\n                    if let Atom::Null = &atom {\n                        nullable = true;\n                    }\n                    items.push(self.atom_into_ast(atom, context)?);\n                }', '                let nullable = list.contains(&Atom::Null);\n                let items = list\n                    .iter()\n                    .map(|&atom| self.atom_into_ast(atom, context))\n                    .collect::<Result<Vec<ast::Tag>, _>>()?;')]),
    ('rf6-g24-default-tag', [('src/ast.rs', '        let mut tag = Tag {\n            name: None,\n            namespace: None,\n            nullable,\n            data_type,\n            is_root: false,\n            description: None,\n            title: None,\n        };', '        let mut tag = Tag {\n            nullable,\n            data_type,\n            ..Default::default()\n        };')]),
    ('rf6-g25-union-into', [('src/ast.rs', '                let tag = union.collapse();\n                self.data_type = tag.data_type;\n                self.nullable |= tag.nullable;', '                let Tag { data_type, nullable, .. } = union.collapse();\n                self.nullable = self.nullable || nullable;\n                self.data_type = data_type;')]),
    ('rf6-g26-avro-match-nullable', [('src/avro.rs', '        if tag.nullable && !tag.is_null() {\n            Ok(Type::Union(vec![\n                Type::Primitive(Primitive::Null),\n                data_type,\n            ]))\n        } else {\n            Ok(data_type)\n        }', '        match (tag.nullable, &tag.data_type) {\n            (true, ast::Type::Null) | (false, _) => Ok(data_type),\n            (true, _) => {\n                let mut branches = Vec::with_capacity(2);\n                branches.push(Type::Primitive(Primitive::Null));\n                branches.push(data_type);\n                Ok(Type::Union(branches))\n            }\n        }')]),
    ('rf6-g27-avro-try-loop', [('src/avro.rs', '                let mut fields: Vec<Field> = if object.fields.is_empty() {\n                    Vec::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| {\n                            let default = if v.nullable { Some(json!(null)) } else { None };\n                            (\n                                k.to_string(),\n                                Type::translate_from(*v.clone(), context),\n                                default,\n                            )\n                        })\n                        .filter(|(_, v, _)| v.is_ok())\n                        .map(|(name, data_type, default)| Field {\n                            name,\n                            data_type: data_type.unwrap(),\n                            default,\n                            ..Default::default()\n                        })\n                        .collect()\n                };', '                let mut fields: Vec<Field> = Vec::with_capacity(object.fields.len());\n                let mut names: Vec<&String> = object.fields.keys().collect();\n                names.sort_unstable();\n                for name in names {\n                    let child = &object.fields[name];\n                    let data_type = match Type::translate_from(child.as_ref().clone(), context) {\n                        Ok(data_type) => data_type,\n                        Err(reason) => {\n                            debug!("dropping {}: {}", name, reason);\n                            continue;\n                        }\n                    };\n                    fields.push(Field {\n                        name: name.clone(),\n                        data_type,\n                        default: child.nullable.then(|| Value::Null),\n                        ..Default::default()\n                    });\n                }')]),
    ('rf6-g28-bq-desc-join', [('src/bigquery.rs', '        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };', '        let parts: Vec<String> = vec![tag.title, tag.description].into_iter().flatten().collect();\n        let description = if parts.is_empty() { None } else { Some(parts.join(" - ")) };')]),
    ('rf6-g29-bq-desc-push', [('src/bigquery.rs', '        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };', '        let description = match (tag.title, tag.description) {\n            (Some(mut title), Some(description)) => {\n                title.push_str(" - ");\n                title.push_str(&description);\n                Some(title)\n            }\n            (title, description) => title.or(description),\n        };')]),
    ('rf6-g30-lib-strip', [('src/lib.rs', '        .and_then(|obj| obj["json_object_path_regex"].as_str());\n    if let Some(json_object_path_regex) = metadata {\n        context.json_object_path_regex = Some(json_object_path_regex.to_string());\n    }', '        .and_then(|obj| obj.get("json_object_path_regex"))\n        .and_then(Value::as_str)\n        .map(str::to_owned);\n    context.json_object_path_regex = metadata.or_else(|| context.json_object_path_regex.take());')]),
    ('rf6-g31-lib-unwrap-or-else', [('src/lib.rs', '    let jsonschema: jsonschema::Tag = match serde_json::from_value(json!(input)) {\n        Ok(tag) => tag,\n        Err(e) => panic!("{:#?}", e),\n    };', '    let jsonschema: jsonschema::Tag =\n        serde_json::from_value(input.clone()).unwrap_or_else(|e| panic!("{:#?}", e));')]),
    ('rf6-g32-js-required-ref', [('src/jsonschema.rs', '                    let mut fields: HashMap<String, ast::Tag> = HashMap::new();\n                    for (key, value) in properties {\n                        fields.insert(key.to_string(), value.type_into_ast(context)?);\n                    }', "                    let fields = properties\n                        .iter()\n                        .map(|(key, value)| Ok((key.clone(), value.type_into_ast(context)?)))\n                        .collect::<Result<HashMap<String, ast::Tag>, &'static str>>()?;")]),
    ('rf6-g33-js-nullable-tuple', [('src/jsonschema.rs', '                                for item in unwrapped.iter_mut().skip(min_items) {\n                                    item.nullable = true;\n                                }', '                                unwrapped\n                                    .iter_mut()\n                                    .enumerate()\n                                    .filter(|(i, _)| *i >= min_items)\n                                    .for_each(|(_, item)| item.nullable = true);')]),
    ('rf6-g34-js-pad-repeat', [('src/jsonschema.rs', '                                        for _ in unwrapped.len()..max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.push(ast_tag);\n                                        }', '                                        let missing = max_items - unwrapped.len();\n                                        if missing > 0 {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.extend(std::iter::repeat(ast_tag).take(missing));\n                                        }')]),
    ('rf6-g35-js-pad-resize', [('src/jsonschema.rs', '                                        for _ in unwrapped.len()..max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.push(ast_tag);\n                                        }', '                                        if unwrapped.len() < max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.resize(max_items, ast_tag);\n                                        }')]),
    ('rf6-g36-null-split', [('src/ast.rs', '                for (key, value) in &mut object.fields {\n                    // Infer whether the value is nullable\n                    value.infer_nullability(force_nullable);\n                    // A required nullable field is still nullable\n                    value.nullable |= !required.contains(key);\n                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }\n                }', '                for value in object.fields.values_mut() {\n                    value.infer_nullability(force_nullable);\n                }\n                for (key, value) in object.fields.iter_mut() {\n                    if force_nullable || !required.contains(key.as_str()) {\n                        value.nullable = true;\n                    }\n                }')]),
    ('rf6-g37-null-drop-inner-force', [('src/ast.rs', '                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }\n', '')]),
    ('rf6-g38-uc-drain', [('src/ast.rs', '        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();', '        items.retain(|x| !matches!(x.data_type, Type::Null));')]),
    ('rf6-g39-uc-partition-point', [('src/ast.rs', '        let mut items = self.items.clone();\n        items.iter_mut().for_each(Tag::collapse);', '        let mut items = Vec::with_capacity(self.items.len());\n        for item in &self.items {\n            let mut item = item.clone();\n            item.collapse();\n            items.push(item);\n        }')]),
    ('rf6-g40-merge-fields-entry', [('src/ast.rs', '                        for (key, value) in &left.fields {\n                            union.insert(key.to_string(), vec![*value.clone()]);\n                        }\n                        for (key, value) in &right.fields {\n                            if let Some(vec) = union.get_mut(key) {\n                                vec.push(*value.clone())\n                            } else {\n                                union.insert(key.to_string(), vec![*value.clone()]);\n                            }\n                        }', '                        for object in [left, right] {\n                            for (key, value) in &object.fields {\n                                union\n                                    .entry(key.clone())\n                                    .or_insert_with(Vec::new)\n                                    .push(value.as_ref().clone());\n                            }\n                        }')]),
    ('rf6-g41-atoms-lookup', [('src/ast.rs', '                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,\n                            (Atom::Integer, Atom::Integer) => Atom::Integer,\n                            (Atom::Number, Atom::Number)\n                            | (Atom::Integer, Atom::Number)\n                            | (Atom::Number, Atom::Integer) => Atom::Number,\n                            (Atom::String, Atom::String) => Atom::String,\n                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,\n                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,\n', '                            (lhs, rhs) if std::mem::discriminant(&lhs) == std::mem::discriminant(rhs) => lhs,\n                            (Atom::Integer, Atom::Number) | (Atom::Number, Atom::Integer) => Atom::Number,\n')]),
    ('rf6-g42-collapse-replace', [('src/ast.rs', '            Type::Union(union) => {\n                let tag = union.collapse();\n                self.data_type = tag.data_type;\n                self.nullable |= tag.nullable;\n            }', '            Type::Union(union) => {\n                let resolved = union.collapse();\n                *self = Tag {\n                    data_type: resolved.data_type,\n                    nullable: self.nullable | resolved.nullable,\n                    name: self.name.take(),\n                    namespace: self.namespace.take(),\n                    is_root: self.is_root,\n                    description: self.description.take(),\n                    title: self.title.take(),\n                };\n            }')]),
    ('rf6-g43-infer-name-closure', [('src/ast.rs', '        let namespace = {\n            let name = match &self.name {\n                Some(name) => name,\n                None => "",\n            };\n            match &self.namespace {\n                Some(ns) => format!("{}.{}", ns, name),\n                None => name.to_string(),\n            }\n        };', '        let name = self.name.clone().unwrap_or_default();\n        let namespace = self\n            .namespace\n            .as_ref()\n            .map(|ns| [ns.as_str(), name.as_str()].join("."))\n            .unwrap_or(name);')]),
    ('rf6-g44-schema-sort-name', [('src/bigquery.rs', '                vec.sort_by_key(|(key, _)| key.to_string());', '                vec.sort_by(|(a, _), (b, _)| a.as_str().cmp(b.as_str()));')]),
    ('rf6-g45-bq-map-pair', [('src/bigquery.rs', '                let fields: HashMap<String, Box<Tag>> =\n                    vec![Some(("key", key)), value.map(|v| ("value", v))]\n                        .into_iter()\n                        .flatten()\n                        .map(|(k, v)| (k.to_string(), Box::new(v)))\n                        .collect();', '                let mut fields: HashMap<String, Box<Tag>> = HashMap::with_capacity(2);\n                fields.insert("key".to_string(), Box::new(key));\n                if let Some(value) = value {\n                    fields.insert("value".to_string(), Box::new(value));\n                }')]),
    ('rf6-g46-bq-err-q', [('src/bigquery.rs', '                    Err(_) => {\n                        if context.allow_maps_without_value {\n                            None\n                        } else {\n                            return Err(fmt_reason("untyped map value"));\n                        }\n                    }', '                    Err(_) if context.allow_maps_without_value => None,\n                    Err(reason) => {\n                        debug!("{}", reason);\n                        return Err(fmt_reason("untyped map value"));\n                    }')]),
    ('rf6-g47-main-result', [('src/main.rs', '    let data: Value = serde_json::from_reader(reader).unwrap();', '    let data = match serde_json::from_reader::<_, Value>(reader) {\n        Ok(data) => data,\n        Err(e) => {\n            eprintln!("cannot read the schema: {}", e);\n            std::process::exit(1);\n        }\n    };')]),
    ('rf6-g48-main-lock', [('src/main.rs', '    println!("{}", pretty);', '    use std::io::Write;\n    let stdout = io::stdout();\n    let mut out = stdout.lock();\n    writeln!(out, "{}", pretty).unwrap();')]),
    ('rf6-g49-main-display', [('src/main.rs', '    let pretty = serde_json::to_string_pretty(&output).unwrap();\n    println!("{}", pretty);', '    println!("{:#}", output);')]),
    ('rf6-g50-case-oncecell', [('src/ast.rs', '    fn normalize_name_bigquery(string: &str) -> Option<String> {\n        let re = Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap();\n        let renamed = Tag::normalize_numeric_prefix(string.replace([\'.\', \'-\'], "_"));\n        if re.is_match(&renamed) {\n            Some(renamed)\n        } else {\n            None\n        }', '    fn normalize_name_bigquery(string: &str) -> Option<String> {\n        let renamed = Tag::normalize_numeric_prefix(string.replace(\'.\', "_").replace(\'-\', "_"));\n        let legal = !renamed.is_empty()\n            && renamed.bytes().enumerate().all(|(i, b)| match b {\n                b\'a\'..=b\'z\' | b\'A\'..=b\'Z\' | b\'_\' => true,\n                b\'0\'..=b\'9\' => i > 0,\n                _ => false,\n            });\n        legal.then_some(renamed)')]),
    ('rf7-g51-bq-fields-loop', [('src/bigquery.rs', '                let fields: HashMap<String, Box<Tag>> = if object.fields.is_empty() {\n                    HashMap::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))\n                        .filter(|(_, v)| v.is_ok())\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n                        .collect()\n                };\n', '                let mut fields: HashMap<String, Box<Tag>> = HashMap::new();\n                for (key, child) in object.fields.iter() {\n                    if let Ok(column) = Tag::translate_from((**child).clone(), context) {\n                        fields.insert(key.clone(), Box::new(column));\n                    }\n                }\n')]),
    ('rf7-g52-bq-tuple-loop', [('src/bigquery.rs', '                let fields: Result<Vec<_>, _> = tuple\n                    .items\n                    .iter()\n                    .map(|v| Tag::translate_from(v.clone(), context))\n                    .collect();\n\n                let named_fields: HashMap<String, Box<Tag>> = fields?\n                    .into_iter()\n                    .enumerate()\n                    .map(|(i, mut v)| {\n                        // The name is actually derived from the value, not from\n                        // the associated key. Modify the name in place.\n                        let name = format!("f{}_", i);\n                        v.name = Some(name.clone());\n                        (name, Box::new(v))\n                    })\n                    .collect();\n', '                let mut named_fields: HashMap<String, Box<Tag>> = HashMap::new();\n                for (i, item) in tuple.items.iter().enumerate() {\n                    let column = Tag::translate_from(item.clone(), context)?;\n                    let name = format!("f{}_", i);\n                    named_fields.insert(\n                        name.clone(),\n                        Box::new(Tag {\n                            name: Some(name),\n                            ..column\n                        }),\n                    );\n                }\n')]),
    ('rf7-g53-bq-desc-nth', [('src/bigquery.rs', '            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());\n', '            description.map(|d: String| match d.char_indices().nth(MAX_DESCRIPTION_LENGTH) {\n                Some((end, _)) => d[..end].to_string(),\n                None => d,\n            });\n')]),
    ('rf7-g54-bq-mode-match', [('src/bigquery.rs', '        let mode = if tag.is_array() || tag.is_map() {\n            Mode::Repeated\n        } else if tag.is_null() || tag.nullable {\n            Mode::Nullable\n        } else {\n            Mode::Required\n        };\n', '        let mode = match &tag.data_type {\n            ast::Type::Array(_) | ast::Type::Map(_) => Mode::Repeated,\n            ast::Type::Null => Mode::Nullable,\n            _ if tag.nullable => Mode::Nullable,\n            _ => Mode::Required,\n        };\n')]),
    ('rf7-g55-bq-root-helper', [('src/bigquery.rs', '            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {\n                assert!(bq_tag.name.is_none());\n                bq_tag.name = Some(DEFAULT_COLUMN.into());\n                Ok(Schema::Root(vec![bq_tag]))\n            }\n            Type::Atom(_) => {\n                assert!(bq_tag.name.is_none());\n                bq_tag.name = Some(DEFAULT_COLUMN.into());\n                Ok(Schema::Root(vec![bq_tag]))\n            }\n            Type::Record(record) => {\n', '            Type::Record(record) if !matches!(bq_tag.mode, Mode::Repeated) => {\n'), ('src/bigquery.rs', '                let columns = vec.into_iter().map(|(_, v)| *v).collect();\n                Ok(Schema::Root(columns))\n            }\n', '                let columns = vec.into_iter().map(|(_, v)| *v).collect();\n                Ok(Schema::Root(columns))\n            }\n            _ => {\n                assert!(bq_tag.name.is_none());\n                bq_tag.name = Some(DEFAULT_COLUMN.into());\n                Ok(Schema::Root(vec![bq_tag]))\n            }\n')]),
    ('rf7-g56-avro-array-items', [('src/avro.rs', '                    Ok(data_type) => {\n                        if child_is_array {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(Type::Complex(Complex::Record(Record {\n', '                    Ok(data_type) => {\n                        let items = if child_is_array {\n                                Type::Complex(Complex::Record(Record {\n'), ('src/avro.rs', '                                        ..Default::default()\n                                    }],\n                                }))),\n                            }))\n                        } else {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(data_type),\n                            }))\n                        }\n                    }\n', '                                        ..Default::default()\n                                    }],\n                                }))\n                        } else {\n                            data_type\n                        };\n                        Type::Complex(Complex::Array(Array { items: Box::new(items) }))\n                    }\n')]),
    ('rf7-g57-avro-nullable-helper', [('src/avro.rs', '        if tag.nullable && !tag.is_null() {\n            Ok(Type::Union(vec![\n                Type::Primitive(Primitive::Null),\n                data_type,\n            ]))\n        } else {\n            Ok(data_type)\n        }\n    }\n}\n', '        let plain = !tag.nullable || tag.is_null();\n        Ok(if plain { data_type } else { or_null(data_type) })\n    }\n}\n\nfn or_null(data_type: Type) -> Type {\n    let mut alternatives = Vec::with_capacity(2);\n    alternatives.push(Type::Primitive(Primitive::Null));\n    alternatives.push(data_type);\n    Type::Union(alternatives)\n}\n')]),
    ('rf7-g58-avro-name-if-let', [('src/avro.rs', '                    common: CommonAttributes {\n                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),\n                        namespace: tag.namespace.clone(),\n                        ..Default::default()\n                    },\n                    fields,\n                };\n                if record.common.name == "__UNNAMED__" {', '                    common: CommonAttributes {\n                        name: if let Some(name) = &tag.name {\n                            name.clone()\n                        } else {\n                            String::from("__UNNAMED__")\n                        },\n                        namespace: tag.namespace.to_owned(),\n                        ..Default::default()\n                    },\n                    fields,\n                };\n                if record.common.name.as_str() == "__UNNAMED__" {')]),
    ('rf7-g59-bq-map-insert', [('src/bigquery.rs', '                let fields: HashMap<String, Box<Tag>> =\n                    vec![Some(("key", key)), value.map(|v| ("value", v))]\n                        .into_iter()\n                        .flatten()\n                        .map(|(k, v)| (k.to_string(), Box::new(v)))\n                        .collect();\n', '                let mut fields: HashMap<String, Box<Tag>> = HashMap::with_capacity(2);\n                fields.insert(String::from("key"), Box::new(key));\n                if let Some(value) = value {\n                    fields.insert(String::from("value"), Box::new(value));\n                }\n')]),
    ('rf7-g60-bq-desc-iter', [('src/bigquery.rs', '        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };\n', '        let parts: Vec<String> = tag.title.into_iter().chain(tag.description).collect();\n        let description = if parts.is_empty() {\n            None\n        } else {\n            Some(parts.join(" - "))\n        };\n')]),
    ('rf8-g61-merge-chain', [('src/ast.rs', '                        for (key, value) in &left.fields {\n                            union.insert(key.to_string(), vec![*value.clone()]);\n                        }\n                        for (key, value) in &right.fields {\n                            if let Some(vec) = union.get_mut(key) {\n                                vec.push(*value.clone())\n                            } else {\n                                union.insert(key.to_string(), vec![*value.clone()]);\n                            }\n                        }\n', '                        for (key, value) in left.fields.iter().chain(right.fields.iter()) {\n                            union.entry(key.clone()).or_default().push((**value).clone());\n                        }\n')]),
    ('rf8-g62-nullable-first', [('src/ast.rs', '        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();\n\n        // after', '        let nullable = items.iter().any(|x| x.is_null() || x.nullable);\n        items.retain(|x| !x.is_null());\n\n        // after'), ('src/ast.rs', '        let nullable = is_null || items.iter().any(|tag| tag.nullable);\n\n', '')]),
    ('rf8-g63-consistent-find', [('src/ast.rs', '                        let is_consistent = !result\n                            .iter()\n                            .any(|(_, v)| matches!(v.data_type, Type::Atom(Atom::Json)));\n                        if is_consistent {', '                        let opaque = result\n                            .values()\n                            .find(|v| matches!(&v.data_type, Type::Atom(atom) if matches!(atom, Atom::Json)));\n                        if opaque.is_none() {')]),
    ('rf8-g64-nullable-or', [('src/ast.rs', '                let required = match &object.required {\n                    Some(required) => required.clone(),\n                    None => HashSet::new(),\n                };\n                for (key, value) in &mut object.fields {\n                    // Infer whether the value is nullable\n                    value.infer_nullability(force_nullable);\n                    // A required nullable field is still nullable\n                    value.nullable |= !required.contains(key);\n                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }\n                }\n', '                let Object { fields, required } = object;\n                for (key, value) in fields.iter_mut() {\n                    value.infer_nullability(force_nullable);\n                    let listed = required.as_ref().map_or(false, |names| names.contains(key));\n                    value.nullable = value.nullable || !listed || force_nullable;\n                }\n')]),
    ('rf8-g65-collapse-union-first', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }\n            Type::Union(union) => {\n                let tag = union.collapse();\n                self.data_type = tag.data_type;\n                self.nullable |= tag.nullable;\n            }\n            _ => (),\n        }\n    }\n', '    pub fn collapse(&mut self) {\n        if let Type::Union(union) = &self.data_type {\n            let Tag {\n                data_type,\n                nullable,\n                ..\n            } = union.collapse();\n            self.data_type = data_type;\n            if nullable {\n                self.nullable = true;\n            }\n            return;\n        }\n        self.collapse_children();\n    }\n\n    fn collapse_children(&mut self) {\n        match self.data_type {\n            Type::Object(ref mut object) => object.fields.values_mut().for_each(|v| v.collapse()),\n            Type::Map(ref mut map) => map.value.collapse(),\n            Type::Array(ref mut array) => array.items.collapse(),\n            Type::Tuple(ref mut tuple) => tuple.items.iter_mut().for_each(Tag::collapse),\n            Type::Union(_) | Type::Null | Type::Atom(_) => (),\n        }\n    }\n')]),
    ('rf8-g66-required-closure', [('src/ast.rs', '            object.required = match &object.required {\n                Some(required) => {\n                    let renamed: HashSet<String> = required\n                        .iter()\n                        .map(String::as_str)\n                        .filter_map(Tag::normalize_name_bigquery)\n                        .collect();\n                    if normalize_case {\n                        Some(\n                            renamed\n                                .iter()\n                                .filter_map(|s| Tag::normalize_name_case(s))\n                                .collect(),\n                        )\n                    } else {\n                        Some(renamed)\n                    }\n                }\n                None => None,\n            };\n', '            object.required = object.required.take().map(|required| {\n                let mut names = HashSet::with_capacity(required.len());\n                for name in &required {\n                    let mut renamed = Tag::normalize_name_bigquery(name);\n                    if normalize_case {\n                        renamed = renamed.and_then(|s| Tag::normalize_name_case(&s));\n                    }\n                    names.extend(renamed);\n                }\n                names\n            });\n')]),
    ('rf8-g67-infer-name-method', [('src/ast.rs', '            match &self.namespace {\n                Some(ns) => format!("{}.{}", ns, name),\n                None => name.to_string(),\n            }\n        };\n        self.recurse_infer_name(namespace, normalize_case);', "            let mut path = String::new();\n            if let Some(ns) = &self.namespace {\n                path.push_str(ns);\n                path.push('.');\n            }\n            path.push_str(name);\n            path\n        };\n        self.recurse_infer_name(namespace, normalize_case);")]),
    ('rf8-g68-atoms-loop', [('src/ast.rs', '                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,\n                            (Atom::Integer, Atom::Integer) => Atom::Integer,\n                            (Atom::Number, Atom::Number)\n                            | (Atom::Integer, Atom::Number)\n                            | (Atom::Number, Atom::Integer) => Atom::Number,\n                            (Atom::String, Atom::String) => Atom::String,\n                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,\n                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,\n', '                            (Atom::Integer | Atom::Number, Atom::Number)\n                            | (Atom::Number, Atom::Integer) => Atom::Number,\n                            (Atom::Integer, Atom::Integer) => Atom::Integer,\n                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,\n                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,\n                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,\n                            (Atom::String, Atom::String) => Atom::String,\n')]),
    ('rf8-g69-arrays-collect-filter', [('src/ast.rs', '            let tags: Vec<Tag> = items\n                .into_iter()\n                .map(|x| match &x.data_type {\n                    Type::Array(array) => *array.items.clone(),\n                    _ => panic!("Invalid array found during union collapse"),\n                })\n                .collect();\n            Type::Array(Array::new(Union::new(tags).collapse()))', '            let mut tags = Vec::with_capacity(items.len());\n            for item in items {\n                if let Type::Array(array) = item.data_type {\n                    tags.push(*array.items);\n                } else {\n                    unreachable!("only arrays are left");\n                }\n            }\n            let inner = Union { items: tags };\n            Type::Array(Array::new(inner.collapse()))')]),
    ('rf8-g70-prefix-match', [('src/ast.rs', '        if name.starts_with(char::is_numeric) {\n            format!("_{}", name)\n        } else {\n            name\n        }\n', '        match name.chars().next() {\n            Some(first) if first.is_numeric() => ["_", &name].concat(),\n            _ => name,\n        }\n')]),
]
