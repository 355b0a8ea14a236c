"""Edits that keep the behaviour: recursion through functions with extra arguments, serde attributes (tools/variants.py)."""
REFACTORINGS = [
    ('d-lift-d02', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        self.collapse_at(0)\n    }\n\n    fn collapse_at(&mut self, depth: usize) {\n        trace!("collapse at depth {}", depth);\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at(depth + 1)\n                }\n            }\n            Type::Map(map) => map.value.collapse_at(depth + 1),\n            Type::Array(array) => array.items.collapse_at(depth + 1),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at(depth + 1)\n                }\n            }')]),
    ('d-lift-e1', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        self.collapse_at(())\n    }\n\n    fn collapse_at(&mut self, _d: ()) {\n        \n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at(())\n                }\n            }\n            Type::Map(map) => map.value.collapse_at(()),\n            Type::Array(array) => array.items.collapse_at(()),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at(())\n                }\n            }')]),
    ('d-lift2-f1', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        let mut n = 0usize;\n        self.collapse_at(&mut n);\n    }\n\n    fn collapse_at(&mut self, depth: &mut usize) {\n        *depth += 1;\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at(depth)\n                }\n            }\n            Type::Map(map) => map.value.collapse_at(depth),\n            Type::Array(array) => array.items.collapse_at(depth),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at(depth)\n                }\n            }')]),
    ('d-lift2-f2', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        self.collapse_at(&mut Vec::new());\n    }\n\n    fn collapse_at(&mut self, depth: &mut Vec<String>) {\n        depth.push(self.name.clone().unwrap_or_default());\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at(depth)\n                }\n            }\n            Type::Map(map) => map.value.collapse_at(depth),\n            Type::Array(array) => array.items.collapse_at(depth),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at(depth)\n                }\n            }')]),
    ('d-lift2-f4', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        self.collapse_at(1000)\n    }\n\n    fn collapse_at(&mut self, limit: usize) {\n        if limit > 2000 { return; }\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at(limit)\n                }\n            }\n            Type::Map(map) => map.value.collapse_at(limit),\n            Type::Array(array) => array.items.collapse_at(limit),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at(limit)\n                }\n            }')]),
    ('d-lift2-f5', [('src/ast.rs', '    pub fn collapse(&mut self) {\n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse()\n                }\n            }\n            Type::Map(map) => map.value.collapse(),\n            Type::Array(array) => array.items.collapse(),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse()\n                }\n            }', '    pub fn collapse(&mut self) {\n        self.collapse_at("root")\n    }\n\n    fn collapse_at(&mut self, path: &str) {\n        \n        match &mut self.data_type {\n            Type::Object(object) => {\n                for value in &mut object.fields.values_mut() {\n                    value.collapse_at("x")\n                }\n            }\n            Type::Map(map) => map.value.collapse_at("x"),\n            Type::Array(array) => array.items.collapse_at("x"),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.collapse_at("x")\n                }\n            }')]),
    ('d-lift3-g1', [('src/avro.rs', '    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {\n        let mut tag = tag;\n        if tag.is_root {\n            // Name inference is run only from the root for the proper\n            // construction of the namespace. Fully qualified names require a\n            // top-down approach.\n            tag.collapse();\n            tag.name = Some("root".into());\n            tag.infer_name(context.normalize_case);\n        }\n        tag.infer_nullability(context.force_nullable);\n\n        let fmt_reason =\n            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };\n        let handle_error = |reason: &str| -> Result<Type, Self::Error> {\n            let message = fmt_reason(reason);\n            match context.resolve_method {\n                ResolveMethod::Cast => {\n                    warn!("{}", message);\n                    Ok(Type::Primitive(Primitive::String))\n                }\n                ResolveMethod::Drop => Err(message),\n                ResolveMethod::Panic => panic!("{}", message),\n            }\n        };\n\n        let data_type = match &tag.data_type {\n            ast::Type::Null => Type::Primitive(Primitive::Null),\n            ast::Type::Atom(atom) => Type::Primitive(match atom {\n                ast::Atom::Boolean => Primitive::Boolean,\n                ast::Atom::Integer => Primitive::Long,\n                ast::Atom::Number => Primitive::Double,\n                ast::Atom::String => Primitive::String,\n                ast::Atom::Datetime => Primitive::String,\n                ast::Atom::Bytes => Primitive::Bytes,\n                ast::Atom::Json => match handle_error("json atom") {\n                    Ok(_) => Primitive::String,\n                    Err(reason) => return Err(reason),\n                },\n            }),\n            ast::Type::Object(object) => {\n                let mut fields: Vec<Field> = if object.fields.is_empty() {\n                    Vec::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| {\n                            let default = if v.nullable { Some(json!(null)) } else { None };\n                            (\n                                k.to_string(),\n                                Type::translate_from(*v.clone(), context),\n                                default,\n                            )\n                        })\n                        .filter(|(_, v, _)| v.is_ok())\n                        .map(|(name, data_type, default)| Field {\n                            name,\n                            data_type: data_type.unwrap(),\n                            default,\n                            ..Default::default()\n                        })\n                        .collect()\n                };\n\n                if fields.is_empty() {\n                    handle_error("empty object")?\n                } else {\n                    fields.sort_by_key(|v| v.name.to_string());\n                    let record = Record {\n                        common: CommonAttributes {\n                            // This is not a safe assumption\n                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),\n                            namespace: tag.namespace.clone(),\n                            ..Default::default()\n                        },\n                        fields,\n                    };\n                    if record.common.name == "__UNNAMED__" {\n                        warn!("{} - Unnamed field", tag.fully_qualified_name());\n                    }\n                    Type::Complex(Complex::Record(record))\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields = tuple\n                    .items\n                    .iter()\n                    .enumerate()\n                    .map(|(i, v)| {\n                        let default = if v.nullable { Some(json!(null)) } else { None };\n                        (\n                            format!("f{}_", i),\n                            Type::translate_from(v.clone(), context),\n                            default,\n                        )\n                    })\n                    .filter(|(_, v, _)| v.is_ok())\n                    .map(|(name, data_type, default)| Field {\n                        name,\n                        data_type: data_type.unwrap(),\n                        default,\n                        ..Default::default()\n                    })\n                    .collect();\n                let record = Record {\n                    common: CommonAttributes {\n                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),\n                        namespace: tag.namespace.clone(),\n                        ..Default::default()\n                    },\n                    fields,\n                };\n                if record.common.name == "__UNNAMED__" {\n                    warn!("{} - Unnamed field", tag.fully_qualified_name());\n                }\n                Type::Complex(Complex::Record(record))\n            }\n            ast::Type::Array(array) => {\n                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));\n                match Type::translate_from(*array.items.clone(), context) {\n                    Ok(data_type) => {\n                        if child_is_array {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(Type::Complex(Complex::Record(Record {\n                                    common: CommonAttributes {\n                                        name: tag\n                                            .name\n                                            .clone()\n                                            .unwrap_or_else(|| "__UNNAMED__".into()),\n                                        namespace: tag.namespace.clone(),\n                                        ..Default::default()\n                                    },\n                                    fields: vec![Field {\n                                        name: "list".into(),\n                                        data_type,\n                                        default: if array.items.nullable {\n                                            Some(json!(null))\n                                        } else {\n                                            None\n                                        },\n                                        ..Default::default()\n                                    }],\n                                }))),\n                            }))\n                        } else {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(data_type),\n                            }))\n                        }\n                    }\n                    Err(_) => return Err(fmt_reason("untyped array")),\n                }\n            }\n            ast::Type::Map(map) => match Type::translate_from(*map.value.clone(), context) {\n                Ok(data_type) => Type::Complex(Complex::Map(Map {\n                    values: Box::new(data_type),\n                })),\n                // Err is only reachable when context.resolve_method is Drop\n                Err(_) => {\n                    return if context.allow_maps_without_value {\n                        Err(fmt_reason("map value cannot be dropped in avro"))\n                    } else {\n                        Err(fmt_reason("untyped map value"))\n                    }\n                }\n            },\n            _ => handle_error("unknown type")?,\n        };\n        if tag.nullable && !tag.is_null() {\n            Ok(Type::Union(vec![\n                Type::Primitive(Primitive::Null),\n                data_type,\n            ]))\n        } else {\n            Ok(data_type)\n        }\n    }\n}\n', '    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {\n        translate_at(tag, context, 0)\n    }\n}\n\nfn translate_at(tag: ast::Tag, context: &Context, depth: usize) -> Result<Type, String> {\n        let _ = &depth;\n        let mut tag = tag;\n        if tag.is_root {\n            // Name inference is run only from the root for the proper\n            // construction of the namespace. Fully qualified names require a\n            // top-down approach.\n            tag.collapse();\n            tag.name = Some("root".into());\n            tag.infer_name(context.normalize_case);\n        }\n        tag.infer_nullability(context.force_nullable);\n\n        let fmt_reason =\n            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };\n        let handle_error = |reason: &str| -> Result<Type, String> {\n            let message = fmt_reason(reason);\n            match context.resolve_method {\n                ResolveMethod::Cast => {\n                    warn!("{}", message);\n                    Ok(Type::Primitive(Primitive::String))\n                }\n                ResolveMethod::Drop => Err(message),\n                ResolveMethod::Panic => panic!("{}", message),\n            }\n        };\n\n        let data_type = match &tag.data_type {\n            ast::Type::Null => Type::Primitive(Primitive::Null),\n            ast::Type::Atom(atom) => Type::Primitive(match atom {\n                ast::Atom::Boolean => Primitive::Boolean,\n                ast::Atom::Integer => Primitive::Long,\n                ast::Atom::Number => Primitive::Double,\n                ast::Atom::String => Primitive::String,\n                ast::Atom::Datetime => Primitive::String,\n                ast::Atom::Bytes => Primitive::Bytes,\n                ast::Atom::Json => match handle_error("json atom") {\n                    Ok(_) => Primitive::String,\n                    Err(reason) => return Err(reason),\n                },\n            }),\n            ast::Type::Object(object) => {\n                let mut fields: Vec<Field> = if object.fields.is_empty() {\n                    Vec::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| {\n                            let default = if v.nullable { Some(json!(null)) } else { None };\n                            (\n                                k.to_string(),\n                                translate_at(*v.clone(), context, depth + 1),\n                                default,\n                            )\n                        })\n                        .filter(|(_, v, _)| v.is_ok())\n                        .map(|(name, data_type, default)| Field {\n                            name,\n                            data_type: data_type.unwrap(),\n                            default,\n                            ..Default::default()\n                        })\n                        .collect()\n                };\n\n                if fields.is_empty() {\n                    handle_error("empty object")?\n                } else {\n                    fields.sort_by_key(|v| v.name.to_string());\n                    let record = Record {\n                        common: CommonAttributes {\n                            // This is not a safe assumption\n                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),\n                            namespace: tag.namespace.clone(),\n                            ..Default::default()\n                        },\n                        fields,\n                    };\n                    if record.common.name == "__UNNAMED__" {\n                        warn!("{} - Unnamed field", tag.fully_qualified_name());\n                    }\n                    Type::Complex(Complex::Record(record))\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields = tuple\n                    .items\n                    .iter()\n                    .enumerate()\n                    .map(|(i, v)| {\n                        let default = if v.nullable { Some(json!(null)) } else { None };\n                        (\n                            format!("f{}_", i),\n                            translate_at(v.clone(), context, depth + 1),\n                            default,\n                        )\n                    })\n                    .filter(|(_, v, _)| v.is_ok())\n                    .map(|(name, data_type, default)| Field {\n                        name,\n                        data_type: data_type.unwrap(),\n                        default,\n                        ..Default::default()\n                    })\n                    .collect();\n                let record = Record {\n                    common: CommonAttributes {\n                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),\n                        namespace: tag.namespace.clone(),\n                        ..Default::default()\n                    },\n                    fields,\n                };\n                if record.common.name == "__UNNAMED__" {\n                    warn!("{} - Unnamed field", tag.fully_qualified_name());\n                }\n                Type::Complex(Complex::Record(record))\n            }\n            ast::Type::Array(array) => {\n                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));\n                match translate_at(*array.items.clone(), context, depth + 1) {\n                    Ok(data_type) => {\n                        if child_is_array {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(Type::Complex(Complex::Record(Record {\n                                    common: CommonAttributes {\n                                        name: tag\n                                            .name\n                                            .clone()\n                                            .unwrap_or_else(|| "__UNNAMED__".into()),\n                                        namespace: tag.namespace.clone(),\n                                        ..Default::default()\n                                    },\n                                    fields: vec![Field {\n                                        name: "list".into(),\n                                        data_type,\n                                        default: if array.items.nullable {\n                                            Some(json!(null))\n                                        } else {\n                                            None\n                                        },\n                                        ..Default::default()\n                                    }],\n                                }))),\n                            }))\n                        } else {\n                            Type::Complex(Complex::Array(Array {\n                                items: Box::new(data_type),\n                            }))\n                        }\n                    }\n                    Err(_) => return Err(fmt_reason("untyped array")),\n                }\n            }\n            ast::Type::Map(map) => match translate_at(*map.value.clone(), context, depth + 1) {\n                Ok(data_type) => Type::Complex(Complex::Map(Map {\n                    values: Box::new(data_type),\n                })),\n                // Err is only reachable when context.resolve_method is Drop\n                Err(_) => {\n                    return if context.allow_maps_without_value {\n                        Err(fmt_reason("map value cannot be dropped in avro"))\n                    } else {\n                        Err(fmt_reason("untyped map value"))\n                    }\n                }\n            },\n            _ => handle_error("unknown type")?,\n        };\n        if tag.nullable && !tag.is_null() {\n            Ok(Type::Union(vec![\n                Type::Primitive(Primitive::Null),\n                data_type,\n            ]))\n        } else {\n            Ok(data_type)\n        }\n    }\n')]),
    ('d-lift3-g2', [('src/bigquery.rs', '    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {\n        let mut tag = tag;\n        tag.collapse();\n        tag.infer_name(context.normalize_case);\n        tag.infer_nullability(context.force_nullable);\n\n        let fmt_reason =\n            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };\n        let handle_error = |reason: &str| -> Result<Type, Self::Error> {\n            let message = fmt_reason(reason);\n            match context.resolve_method {\n                ResolveMethod::Cast => {\n                    warn!("{}", message);\n                    Ok(Type::Atom(Atom::String))\n                }\n                ResolveMethod::Drop => Err(message),\n                ResolveMethod::Panic => panic!("{}", message),\n            }\n        };\n\n        let data_type = match &tag.data_type {\n            ast::Type::Atom(atom) => Type::Atom(match atom {\n                ast::Atom::Boolean => Atom::Bool,\n                ast::Atom::Integer => Atom::Int64,\n                ast::Atom::Number => Atom::Float64,\n                ast::Atom::String => Atom::String,\n                ast::Atom::Datetime => Atom::Timestamp,\n                ast::Atom::Bytes => Atom::Bytes,\n                ast::Atom::Json => {\n                    if context.is_json_object_path(&tag.fully_qualified_name()) {\n                        Atom::Json\n                    } else {\n                        match handle_error("json atom") {\n                            Ok(_) => Atom::String,\n                            Err(reason) => return Err(reason),\n                        }\n                    }\n                }\n            }),\n            ast::Type::Object(object) => {\n                let fields: HashMap<String, Box<Tag>> = if object.fields.is_empty() {\n                    HashMap::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))\n                        .filter(|(_, v)| v.is_ok())\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n                        .collect()\n                };\n\n                if fields.is_empty() {\n                    handle_error("empty object")?\n                } else {\n                    Type::Record(Record { fields })\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields: Result<Vec<_>, _> = tuple\n                    .items\n                    .iter()\n                    .map(|v| Tag::translate_from(v.clone(), context))\n                    .collect();\n\n                let named_fields: HashMap<String, Box<Tag>> = fields?\n                    .into_iter()\n                    .enumerate()\n                    .map(|(i, mut v)| {\n                        // The name is actually derived from the value, not from\n                        // the associated key. Modify the name in place.\n                        let name = format!("f{}_", i);\n                        v.name = Some(name.clone());\n                        (name, Box::new(v))\n                    })\n                    .collect();\n\n                Type::Record(Record {\n                    fields: named_fields,\n                })\n            }\n            ast::Type::Array(array) => {\n                // workaround for nested lists\n                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));\n                let sub_tag = match Tag::translate_from(*array.items.clone(), context) {\n                    Ok(tag) => tag,\n                    Err(_) => return Err(fmt_reason("untyped array")),\n                };\n                if child_is_array {\n                    Type::Record(Record {\n                        fields: hashmap! {"list".into() => Box::new(sub_tag)},\n                    })\n                } else {\n                    *sub_tag.data_type\n                }\n            }\n            ast::Type::Map(map) => {\n                let key = Tag::translate_from(*map.key.clone(), context).unwrap();\n                let value = match Tag::translate_from(*map.value.clone(), context) {\n                    Ok(tag) => Some(tag),\n                    Err(_) => {\n                        if context.allow_maps_without_value {\n                            None\n                        } else {\n                            return Err(fmt_reason("untyped map value"));\n                        }\n                    }\n                };\n                let fields: HashMap<String, Box<Tag>> =\n                    vec![Some(("key", key)), value.map(|v| ("value", v))]\n                        .into_iter()\n                        .flatten()\n                        .map(|(k, v)| (k.to_string(), Box::new(v)))\n                        .collect();\n                Type::Record(Record { fields })\n            }\n            _ => handle_error("unknown type")?,\n        };\n\n        let mode = if tag.is_array() || tag.is_map() {\n            Mode::Repeated\n        } else if tag.is_null() || tag.nullable {\n            Mode::Nullable\n        } else {\n            Mode::Required\n        };\n\n        // If schema uses both title and description, format description as "<title> - <description>".\n        // Otherwise set description to whatever is available.\n        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };\n\n        // The maximum length is 1024 characters for BigQuery schemas\n        let truncated_description =\n            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());\n\n        Ok(Tag {\n            name: tag.name.clone(),\n            data_type: Box::new(data_type),\n            mode,\n            description: truncated_description,\n        })\n    }\n}\n', '    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {\n        Tag::translate_at(tag, context, 0)\n    }\n}\n\nimpl Tag {\n    fn translate_at(tag: ast::Tag, context: &Context, depth: usize) -> Result<Tag, String> {\n        let _ = &depth;\n        let mut tag = tag;\n        tag.collapse();\n        tag.infer_name(context.normalize_case);\n        tag.infer_nullability(context.force_nullable);\n\n        let fmt_reason =\n            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };\n        let handle_error = |reason: &str| -> Result<Type, String> {\n            let message = fmt_reason(reason);\n            match context.resolve_method {\n                ResolveMethod::Cast => {\n                    warn!("{}", message);\n                    Ok(Type::Atom(Atom::String))\n                }\n                ResolveMethod::Drop => Err(message),\n                ResolveMethod::Panic => panic!("{}", message),\n            }\n        };\n\n        let data_type = match &tag.data_type {\n            ast::Type::Atom(atom) => Type::Atom(match atom {\n                ast::Atom::Boolean => Atom::Bool,\n                ast::Atom::Integer => Atom::Int64,\n                ast::Atom::Number => Atom::Float64,\n                ast::Atom::String => Atom::String,\n                ast::Atom::Datetime => Atom::Timestamp,\n                ast::Atom::Bytes => Atom::Bytes,\n                ast::Atom::Json => {\n                    if context.is_json_object_path(&tag.fully_qualified_name()) {\n                        Atom::Json\n                    } else {\n                        match handle_error("json atom") {\n                            Ok(_) => Atom::String,\n                            Err(reason) => return Err(reason),\n                        }\n                    }\n                }\n            }),\n            ast::Type::Object(object) => {\n                let fields: HashMap<String, Box<Tag>> = if object.fields.is_empty() {\n                    HashMap::new()\n                } else {\n                    object\n                        .fields\n                        .iter()\n                        .map(|(k, v)| (k.to_string(), Tag::translate_at(*v.clone(), context, depth + 1)))\n                        .filter(|(_, v)| v.is_ok())\n                        .map(|(k, v)| (k, Box::new(v.unwrap())))\n                        .collect()\n                };\n\n                if fields.is_empty() {\n                    handle_error("empty object")?\n                } else {\n                    Type::Record(Record { fields })\n                }\n            }\n            ast::Type::Tuple(tuple) => {\n                let fields: Result<Vec<_>, _> = tuple\n                    .items\n                    .iter()\n                    .map(|v| Tag::translate_at(v.clone(), context, depth + 1))\n                    .collect();\n\n                let named_fields: HashMap<String, Box<Tag>> = fields?\n                    .into_iter()\n                    .enumerate()\n                    .map(|(i, mut v)| {\n                        // The name is actually derived from the value, not from\n                        // the associated key. Modify the name in place.\n                        let name = format!("f{}_", i);\n                        v.name = Some(name.clone());\n                        (name, Box::new(v))\n                    })\n                    .collect();\n\n                Type::Record(Record {\n                    fields: named_fields,\n                })\n            }\n            ast::Type::Array(array) => {\n                // workaround for nested lists\n                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));\n                let sub_tag = match Tag::translate_at(*array.items.clone(), context, depth + 1) {\n                    Ok(tag) => tag,\n                    Err(_) => return Err(fmt_reason("untyped array")),\n                };\n                if child_is_array {\n                    Type::Record(Record {\n                        fields: hashmap! {"list".into() => Box::new(sub_tag)},\n                    })\n                } else {\n                    *sub_tag.data_type\n                }\n            }\n            ast::Type::Map(map) => {\n                let key = Tag::translate_at(*map.key.clone(), context, depth + 1).unwrap();\n                let value = match Tag::translate_at(*map.value.clone(), context, depth + 1) {\n                    Ok(tag) => Some(tag),\n                    Err(_) => {\n                        if context.allow_maps_without_value {\n                            None\n                        } else {\n                            return Err(fmt_reason("untyped map value"));\n                        }\n                    }\n                };\n                let fields: HashMap<String, Box<Tag>> =\n                    vec![Some(("key", key)), value.map(|v| ("value", v))]\n                        .into_iter()\n                        .flatten()\n                        .map(|(k, v)| (k.to_string(), Box::new(v)))\n                        .collect();\n                Type::Record(Record { fields })\n            }\n            _ => handle_error("unknown type")?,\n        };\n\n        let mode = if tag.is_array() || tag.is_map() {\n            Mode::Repeated\n        } else if tag.is_null() || tag.nullable {\n            Mode::Nullable\n        } else {\n            Mode::Required\n        };\n\n        // If schema uses both title and description, format description as "<title> - <description>".\n        // Otherwise set description to whatever is available.\n        let description = match tag.title {\n            Some(title) => match tag.description {\n                Some(description) => Some(format!("{} - {}", title, description)),\n                None => Some(title),\n            },\n            None => tag.description,\n        };\n\n        // The maximum length is 1024 characters for BigQuery schemas\n        let truncated_description =\n            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());\n\n        Ok(Tag {\n            name: tag.name.clone(),\n            data_type: Box::new(data_type),\n            mode,\n            description: truncated_description,\n        })\n    }\n}\n')]),
    ('d-lift3-g3', [('src/jsonschema.rs', '    pub fn type_into_ast(&self, context: &Context) -> Result<ast::Tag, &\'static str> {\n        match self.get_type() {\n            Type::Atom(atom) => self.atom_into_ast(atom, context),\n            Type::List(list) => {\n                let mut nullable: bool = false;\n                let mut items: Vec<ast::Tag> = Vec::new();\n                for atom in list {\n                    if let Atom::Null = &atom {\n                        nullable = true;\n                    }\n                    items.push(self.atom_into_ast(atom, context)?);\n                }\n\n                let description = self.description.clone();\n                let title = self.title.clone();\n\n                Ok(ast::Tag::new(\n                    ast::Type::Union(ast::Union::new(items)),\n                    None,\n                    nullable,\n                    description,\n                    title,\n                ))\n            }\n        }\n    }\n\n    fn atom_into_ast(&self, data_type: Atom, context: &Context) -> Result<ast::Tag, &\'static str> {\n        let description = self.description.clone();\n        let title = self.title.clone();\n\n        let result = match data_type {\n            Atom::Null => ast::Tag::new(ast::Type::Null, None, true, description, title),\n            Atom::Boolean => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Boolean),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Number => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Number),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Integer => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Integer),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::String => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::String),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::DateTime => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Datetime),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Bytes => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Bytes),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Object => match &self.object.properties {\n                Some(properties) => {\n                    let mut fields: HashMap<String, ast::Tag> = HashMap::new();\n                    for (key, value) in properties {\n                        fields.insert(key.to_string(), value.type_into_ast(context)?);\n                    }\n                    ast::Tag::new(\n                        ast::Type::Object(ast::Object::new(fields, self.object.required.clone())),\n                        None,\n                        false,\n                        description,\n                        title,\n                    )\n                }\n                None => {\n                    // handle maps\n                    match (\n                        &self.object.additional_properties,\n                        &self.object.pattern_properties,\n                    ) {\n                        (Some(AdditionalProperties::Object(add)), Some(pat)) => {\n                            let mut vec: Vec<ast::Tag> = Vec::new();\n                            vec.push(add.type_into_ast(context)?);\n                            let pat_vec: Result<Vec<_>, _> =\n                                pat.values().map(|v| v.type_into_ast(context)).collect();\n                            vec.extend(pat_vec?);\n                            let value = ast::Tag::new(\n                                ast::Type::Union(ast::Union::new(vec)),\n                                None,\n                                false,\n                                None,\n                                None,\n                            );\n\n                            ast::Tag::new(\n                                ast::Type::Map(ast::Map::new(None, value)),\n                                None,\n                                false,\n                                description,\n                                title,\n                            )\n                        }\n                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(\n                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),\n                            None,\n                            false,\n                            description,\n                            title,\n                        ),\n                        (_, Some(tag)) => {\n                            let items: Result<Vec<_>, _> =\n                                tag.values().map(|v| v.type_into_ast(context)).collect();\n                            let union = ast::Tag::new(\n                                ast::Type::Union(ast::Union::new(items?)),\n                                None,\n                                false,\n                                None,\n                                None,\n                            );\n                            ast::Tag::new(\n                                ast::Type::Map(ast::Map::new(None, union)),\n                                None,\n                                false,\n                                description,\n                                title,\n                            )\n                        }\n                        _ => {\n                            // handle oneOf\n                            match &self.one_of {\n                                Some(vec) => {\n                                    let items: Result<Vec<_>, _> = vec\n                                        .iter()\n                                        .map(|item| item.type_into_ast(context))\n                                        .collect();\n                                    let unwrapped = items?;\n                                    let nullable: bool = unwrapped.iter().any(ast::Tag::is_null);\n                                    ast::Tag::new(\n                                        ast::Type::Union(ast::Union::new(unwrapped)),\n                                        None,\n                                        nullable,\n                                        description,\n                                        title,\n                                    )\n                                }\n                                None => ast::Tag::new(\n                                    ast::Type::Atom(ast::Atom::Json),\n                                    None,\n                                    false,\n                                    description,\n                                    title,\n                                ),\n                            }\n                        }\n                    }\n                }\n            },\n            Atom::Array => {\n                if let Some(items) = &self.array.items {\n                    let data_type = match items {\n                        ArrayType::Tag(items) => {\n                            ast::Type::Array(ast::Array::new(items.type_into_ast(context)?))\n                        }\n                        ArrayType::TagTuple(items) => {\n                            // Instead of expanding the definition of the AST\n                            // tuple type, only a subset of tuple validation is\n                            // accepted as valid. The type must be set to\n                            // "array", the items a list of sub-schemas,\n                            // additionalItems set to a valid type, and maxItems\n                            // set to a value that is equal to or longer than\n                            // the items list. Anything else will be directly\n                            // translated into a JSON atom.\n                            if context.tuple_struct {\n                                let items: Result<Vec<_>, _> = items\n                                    .iter()\n                                    .map(|item| item.type_into_ast(context))\n                                    .collect();\n                                let mut unwrapped = items?;\n                                let min_items: usize =\n                                    self.array.min_items.unwrap_or(unwrapped.len());\n                                // set items to optional\n                                for item in unwrapped.iter_mut().skip(min_items) {\n                                    item.nullable = true;\n                                }\n                                match &self.array.additional_items {\n                                    Some(AdditionalProperties::Object(tag)) => {\n                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items < unwrapped.len() {\n                                            return Err("maxItems is less than tuple length");\n                                        }\n                                        for _ in unwrapped.len()..max_items {\n                                            let mut ast_tag = tag.type_into_ast(context)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.push(ast_tag);\n                                        }\n                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                    }\n                                    Some(AdditionalProperties::Bool(false)) => {\n                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                    }\n                                    None => {\n                                        // additionalItems may be unspecified if the max_length\n                                        // matches the number of items in the tuple. This corresponds\n                                        // to optional tuple values (variable length tuple).\n                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items == unwrapped.len() {\n                                            ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                        } else {\n                                            return Err("maxItems must be set if additionalItems are allowed");\n                                        }\n                                    }\n                                    _ => return Err("additionalItems set incorrectly"),\n                                }\n                            } else {\n                                ast::Type::Atom(ast::Atom::Json)\n                            }\n                        }\n                    };\n                    ast::Tag::new(data_type, None, false, description, title)\n                } else {\n                    return Err("array missing item");\n                }\n            }\n        };\n        Ok(result)\n    }\n}\n', '    pub fn type_into_ast(&self, context: &Context) -> Result<ast::Tag, &\'static str> {\n        self.type_at(context, 0)\n    }\n\n    fn type_at(&self, context: &Context, depth: usize) -> Result<ast::Tag, &\'static str> {\n        \n\n        match self.get_type() {\n            Type::Atom(atom) => self.atom_into_ast(atom, context, depth),\n            Type::List(list) => {\n                let mut nullable: bool = false;\n                let mut items: Vec<ast::Tag> = Vec::new();\n                for atom in list {\n                    if let Atom::Null = &atom {\n                        nullable = true;\n                    }\n                    items.push(self.atom_into_ast(atom, context, depth)?);\n                }\n\n                let description = self.description.clone();\n                let title = self.title.clone();\n\n                Ok(ast::Tag::new(\n                    ast::Type::Union(ast::Union::new(items)),\n                    None,\n                    nullable,\n                    description,\n                    title,\n                ))\n            }\n        }\n    }\n\n    fn atom_into_ast(&self, data_type: Atom, context: &Context, depth: usize) -> Result<ast::Tag, &\'static str> {\n        let description = self.description.clone();\n        let title = self.title.clone();\n\n        let result = match data_type {\n            Atom::Null => ast::Tag::new(ast::Type::Null, None, true, description, title),\n            Atom::Boolean => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Boolean),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Number => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Number),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Integer => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Integer),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::String => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::String),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::DateTime => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Datetime),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Bytes => ast::Tag::new(\n                ast::Type::Atom(ast::Atom::Bytes),\n                None,\n                false,\n                description,\n                title,\n            ),\n            Atom::Object => match &self.object.properties {\n                Some(properties) => {\n                    let mut fields: HashMap<String, ast::Tag> = HashMap::new();\n                    for (key, value) in properties {\n                        fields.insert(key.to_string(), value.type_at(context, depth + 1)?);\n                    }\n                    ast::Tag::new(\n                        ast::Type::Object(ast::Object::new(fields, self.object.required.clone())),\n                        None,\n                        false,\n                        description,\n                        title,\n                    )\n                }\n                None => {\n                    // handle maps\n                    match (\n                        &self.object.additional_properties,\n                        &self.object.pattern_properties,\n                    ) {\n                        (Some(AdditionalProperties::Object(add)), Some(pat)) => {\n                            let mut vec: Vec<ast::Tag> = Vec::new();\n                            vec.push(add.type_at(context, depth + 1)?);\n                            let pat_vec: Result<Vec<_>, _> =\n                                pat.values().map(|v| v.type_at(context, depth + 1)).collect();\n                            vec.extend(pat_vec?);\n                            let value = ast::Tag::new(\n                                ast::Type::Union(ast::Union::new(vec)),\n                                None,\n                                false,\n                                None,\n                                None,\n                            );\n\n                            ast::Tag::new(\n                                ast::Type::Map(ast::Map::new(None, value)),\n                                None,\n                                false,\n                                description,\n                                title,\n                            )\n                        }\n                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(\n                            ast::Type::Map(ast::Map::new(None, tag.type_at(context, depth + 1)?)),\n                            None,\n                            false,\n                            description,\n                            title,\n                        ),\n                        (_, Some(tag)) => {\n                            let items: Result<Vec<_>, _> =\n                                tag.values().map(|v| v.type_at(context, depth + 1)).collect();\n                            let union = ast::Tag::new(\n                                ast::Type::Union(ast::Union::new(items?)),\n                                None,\n                                false,\n                                None,\n                                None,\n                            );\n                            ast::Tag::new(\n                                ast::Type::Map(ast::Map::new(None, union)),\n                                None,\n                                false,\n                                description,\n                                title,\n                            )\n                        }\n                        _ => {\n                            // handle oneOf\n                            match &self.one_of {\n                                Some(vec) => {\n                                    let items: Result<Vec<_>, _> = vec\n                                        .iter()\n                                        .map(|item| item.type_at(context, depth + 1))\n                                        .collect();\n                                    let unwrapped = items?;\n                                    let nullable: bool = unwrapped.iter().any(ast::Tag::is_null);\n                                    ast::Tag::new(\n                                        ast::Type::Union(ast::Union::new(unwrapped)),\n                                        None,\n                                        nullable,\n                                        description,\n                                        title,\n                                    )\n                                }\n                                None => ast::Tag::new(\n                                    ast::Type::Atom(ast::Atom::Json),\n                                    None,\n                                    false,\n                                    description,\n                                    title,\n                                ),\n                            }\n                        }\n                    }\n                }\n            },\n            Atom::Array => {\n                if let Some(items) = &self.array.items {\n                    let data_type = match items {\n                        ArrayType::Tag(items) => {\n                            ast::Type::Array(ast::Array::new(items.type_at(context, depth + 1)?))\n                        }\n                        ArrayType::TagTuple(items) => {\n                            // Instead of expanding the definition of the AST\n                            // tuple type, only a subset of tuple validation is\n                            // accepted as valid. The type must be set to\n                            // "array", the items a list of sub-schemas,\n                            // additionalItems set to a valid type, and maxItems\n                            // set to a value that is equal to or longer than\n                            // the items list. Anything else will be directly\n                            // translated into a JSON atom.\n                            if context.tuple_struct {\n                                let items: Result<Vec<_>, _> = items\n                                    .iter()\n                                    .map(|item| item.type_at(context, depth + 1))\n                                    .collect();\n                                let mut unwrapped = items?;\n                                let min_items: usize =\n                                    self.array.min_items.unwrap_or(unwrapped.len());\n                                // set items to optional\n                                for item in unwrapped.iter_mut().skip(min_items) {\n                                    item.nullable = true;\n                                }\n                                match &self.array.additional_items {\n                                    Some(AdditionalProperties::Object(tag)) => {\n                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items < unwrapped.len() {\n                                            return Err("maxItems is less than tuple length");\n                                        }\n                                        for _ in unwrapped.len()..max_items {\n                                            let mut ast_tag = tag.type_at(context, depth + 1)?;\n                                            ast_tag.nullable = true;\n                                            unwrapped.push(ast_tag);\n                                        }\n                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                    }\n                                    Some(AdditionalProperties::Bool(false)) => {\n                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                    }\n                                    None => {\n                                        // additionalItems may be unspecified if the max_length\n                                        // matches the number of items in the tuple. This corresponds\n                                        // to optional tuple values (variable length tuple).\n                                        let max_items: usize = self.array.max_items.unwrap_or(0);\n                                        if max_items == unwrapped.len() {\n                                            ast::Type::Tuple(ast::Tuple::new(unwrapped))\n                                        } else {\n                                            return Err("maxItems must be set if additionalItems are allowed");\n                                        }\n                                    }\n                                    _ => return Err("additionalItems set incorrectly"),\n                                }\n                            } else {\n                                ast::Type::Atom(ast::Atom::Json)\n                            }\n                        }\n                    };\n                    ast::Tag::new(data_type, None, false, description, title)\n                } else {\n                    return Err("array missing item");\n                }\n            }\n        };\n        Ok(result)\n    }\n}\n')]),
    ('d-lift3-g5', [('src/ast.rs', '    pub fn infer_nullability(&mut self, force_nullable: bool) {\n        match &mut self.data_type {\n            Type::Null => {\n                self.nullable = true;\n            }\n            Type::Object(object) => {\n                let required = match &object.required {\n                    Some(required) => required.clone(),\n                    None => HashSet::new(),\n                };\n                for (key, value) in &mut object.fields {\n                    // Infer whether the value is nullable\n                    value.infer_nullability(force_nullable);\n                    // A required nullable field is still nullable\n                    value.nullable |= !required.contains(key);\n                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }\n                }\n            }\n            Type::Map(map) => map.value.infer_nullability(force_nullable),\n            Type::Array(array) => array.items.infer_nullability(force_nullable),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.infer_nullability(force_nullable);\n                }\n            }\n            Type::Union(union) => {\n                for item in union.items.iter_mut() {\n                    item.infer_nullability(force_nullable);\n                }\n            }\n            _ => (),\n        }\n        if force_nullable {\n            self.nullable = true\n        }\n    }\n\n    /// Factor out the shared parts of the union between two schemas.\n', '    pub fn infer_nullability(&mut self, force_nullable: bool) {\n        self.null_at(force_nullable, 0)\n    }\n\n    fn null_at(&mut self, force_nullable: bool, depth: usize) {\n\n        match &mut self.data_type {\n            Type::Null => {\n                self.nullable = true;\n            }\n            Type::Object(object) => {\n                let required = match &object.required {\n                    Some(required) => required.clone(),\n                    None => HashSet::new(),\n                };\n                for (key, value) in &mut object.fields {\n                    // Infer whether the value is nullable\n                    value.null_at(force_nullable, depth + 1);\n                    // A required nullable field is still nullable\n                    value.nullable |= !required.contains(key);\n                    // All fields are nullable if enforced\n                    if force_nullable {\n                        value.nullable = true;\n                    }\n                }\n            }\n            Type::Map(map) => map.value.null_at(force_nullable, depth + 1),\n            Type::Array(array) => array.items.null_at(force_nullable, depth + 1),\n            Type::Tuple(tuple) => {\n                for item in tuple.items.iter_mut() {\n                    item.null_at(force_nullable, depth + 1);\n                }\n            }\n            Type::Union(union) => {\n                for item in union.items.iter_mut() {\n                    item.null_at(force_nullable, depth + 1);\n                }\n            }\n            _ => (),\n        }\n        if force_nullable {\n            self.nullable = true\n        }\n    }\n\n    /// Factor out the shared parts of the union between two schemas.\n')]),
    ('d-serde-a12', [('src/jsonschema.rs', '#[serde(rename_all = "camelCase", tag = "type")]\npub struct Tag', '#[serde(rename_all = "camelCase", tag = "type", default)]\npub struct Tag')]),
    ('d-serde-a15', [('src/jsonschema.rs', '    Bool(bool),\n    Object(Box<Tag>),', '    Object(Box<Tag>),\n    Bool(bool),')]),
    ('d-serde-a16', [('src/jsonschema.rs', '    Tag(Box<Tag>),\n    TagTuple(TagArray),', '    TagTuple(TagArray),\n    Tag(Box<Tag>),')]),
]
