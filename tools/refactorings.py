"""Edits that keep the behaviour: the checks have to stay quiet on them (tools/variants.py)."""
REFACTORINGS = []
AST, AVRO, BQ, JS, LIB, MAIN, CASE = ("src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs", "src/main.rs", "src/casing.rs")


def r(id, *edits):
    REFACTORINGS.append((id, list(edits)))


# ---- ast.rs
NS = """        // A namespace inferred before a union was resolved is out of date.
        self.namespace = if namespace.is_empty() {
            None
        } else {
            Some(namespace.to_string())
        };
"""
r("a01-set-name-early-return", (AST, """        self.name = Some(name.to_string());
""" + NS, """        self.name = Some(name.to_owned());
        self.namespace = None;
        if namespace.is_empty() {
            return;
        }
        self.namespace = Some(String::from(namespace));
"""))
r("a42-set-name-filter", (AST, NS, """        self.namespace = Some(namespace).filter(|ns| !ns.is_empty()).map(str::to_string);
"""))
r("a43-set-name-match", (AST, NS, """        self.namespace = match namespace {
            "" => None,
            ns => Some(ns.to_owned()),
        };
"""))
r("a44-set-name-then", (AST, NS, """        self.namespace = (!namespace.is_empty()).then(|| namespace.to_string());
"""))
r("a45-set-name-take", (AST, NS, """        self.namespace.take();
        if !namespace.is_empty() {
            self.namespace.replace(namespace.into());
        }
"""))
r("a02-fqn-match-tuple", (AST, """        let name = match &self.name {
            Some(name) => name.clone(),
            None => "__unknown__".to_string(),
        };
        match &self.namespace {
            Some(ns) => format!("{}.{}", ns, name),
            None => name,
        }
""", """        let name = self.name.as_deref().unwrap_or("__unknown__");
        if let Some(ns) = self.namespace.as_ref() {
            let mut path = ns.clone();
            path.push('.');
            path.push_str(name);
            path
        } else {
            name.to_string()
        }
"""))
r("a03-infer-name-combinators", (AST, """        let namespace = {
            let name = match &self.name {
                Some(name) => name,
                None => "",
            };
            match &self.namespace {
                Some(ns) => format!("{}.{}", ns, name),
                None => name.to_string(),
            }
        };
        self.recurse_infer_name(namespace, normalize_case);
""", """        let name = self.name.clone().unwrap_or_default();
        let namespace = self
            .namespace
            .as_ref()
            .map(|ns| [ns.as_str(), name.as_str()].join("."))
            .unwrap_or(name);
        self.recurse_infer_name(namespace, normalize_case)
"""))
r("a04-nullability-contains", (AST, """                let required = match &object.required {
                    Some(required) => required.clone(),
                    None => HashSet::new(),
                };
                for (key, value) in &mut object.fields {
                    // Infer whether the value is nullable
                    value.infer_nullability(force_nullable);
                    // A required nullable field is still nullable
                    value.nullable |= !required.contains(key);
                    // All fields are nullable if enforced
                    if force_nullable {
                        value.nullable = true;
                    }
                }
""", """                let required = &object.required;
                for (key, value) in object.fields.iter_mut() {
                    value.infer_nullability(force_nullable);
                    let is_required = match required {
                        Some(names) => names.contains(key),
                        None => false,
                    };
                    if force_nullable || !is_required {
                        value.nullable = true;
                    }
                }
"""))
r("a05-nullability-map-or", (AST, """                let required = match &object.required {
                    Some(required) => required.clone(),
                    None => HashSet::new(),
                };
                for (key, value) in &mut object.fields {
                    // Infer whether the value is nullable
                    value.infer_nullability(force_nullable);
                    // A required nullable field is still nullable
                    value.nullable |= !required.contains(key);
                    // All fields are nullable if enforced
                    if force_nullable {
                        value.nullable = true;
                    }
                }
""", """                let Object { fields, required } = object;
                let is_required =
                    |key: &String| required.as_ref().map_or(false, |names| names.contains(key));
                fields.iter_mut().for_each(|(key, value)| {
                    value.infer_nullability(force_nullable);
                    value.nullable = value.nullable || force_nullable || !is_required(key);
                });
"""))
r("a06-nullability-force-first", (AST, """    pub fn infer_nullability(&mut self, force_nullable: bool) {
        match &mut self.data_type {
            Type::Null => {
                self.nullable = true;
            }
""", """    pub fn infer_nullability(&mut self, force_nullable: bool) {
        self.nullable = self.nullable || force_nullable;
        match &mut self.data_type {
            Type::Null => self.nullable = true,
"""), (AST, """            _ => (),
        }
        if force_nullable {
            self.nullable = true
        }
    }
""", """            Type::Atom(_) => {}
        }
    }
"""))
r("a07-children-mut", (AST, """    pub fn collapse(&mut self) {
        match &mut self.data_type {
            Type::Object(object) => {
                for value in &mut object.fields.values_mut() {
                    value.collapse()
                }
            }
            Type::Map(map) => map.value.collapse(),
            Type::Array(array) => array.items.collapse(),
            Type::Tuple(tuple) => {
                for item in tuple.items.iter_mut() {
                    item.collapse()
                }
            }
            Type::Union(union) => {
""", """    pub fn collapse(&mut self) {
        match &mut self.data_type {
            Type::Object(object) => object.fields.values_mut().for_each(|tag| tag.collapse()),
            Type::Map(Map { value, .. }) => value.collapse(),
            Type::Array(Array { items }) => items.collapse(),
            Type::Tuple(tuple) => tuple.items.iter_mut().for_each(Tag::collapse),
            Type::Union(union) => {
"""))
r("a08-union-helper-merge", (AST, """                        // union each sub-property, recursively collapse, and rebuild
                        let mut union: HashMap<String, Vec<Tag>> = HashMap::new();
                        for (key, value) in &left.fields {
                            union.insert(key.to_string(), vec![*value.clone()]);
                        }
                        for (key, value) in &right.fields {
                            if let Some(vec) = union.get_mut(key) {
                                vec.push(*value.clone())
                            } else {
                                union.insert(key.to_string(), vec![*value.clone()]);
                            }
                        }
                        let result: HashMap<String, Tag> = union
""", """                        let union = Union::group_fields(left, right);
                        let result: HashMap<String, Tag> = union
"""), (AST, """impl Union {
    pub fn new(items: Vec<Tag>) -> Self {
        Union { items }
    }
""", """impl Union {
    pub fn new(items: Vec<Tag>) -> Self {
        Union { items }
    }

    /// The schemas of each property of two objects.
    fn group_fields(left: &Object, right: &Object) -> HashMap<String, Vec<Tag>> {
        let mut union: HashMap<String, Vec<Tag>> = HashMap::new();
        for fields in [&left.fields, &right.fields] {
            for (key, value) in fields {
                union
                    .entry(key.to_string())
                    .or_default()
                    .push((**value).clone());
            }
        }
        union
    }
"""))
r("a09-union-entry", (AST, """                            if let Some(vec) = union.get_mut(key) {
                                vec.push(*value.clone())
                            } else {
                                union.insert(key.to_string(), vec![*value.clone()]);
                            }
""", """                            union
                                .entry(key.clone())
                                .or_insert_with(Vec::new)
                                .push(*value.clone());
"""))
r("a10-union-atom-helper", (AST, """                        let atom = match (left, right) {
                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,
                            (Atom::Integer, Atom::Integer) => Atom::Integer,
                            (Atom::Number, Atom::Number)
                            | (Atom::Integer, Atom::Number)
                            | (Atom::Number, Atom::Integer) => Atom::Number,
                            (Atom::String, Atom::String) => Atom::String,
                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                            (lhs, rhs) => {
                                trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                Atom::Json
                            }
                        };
                        Type::Atom(atom)
""", """                        Type::Atom(join_atoms(left, *right))
"""), (AST, """#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Object {
    pub fields""", """/// The type that holds the values of two scalar types.
fn join_atoms(left: Atom, right: Atom) -> Atom {
    use Atom::*;
    match (left, right) {
        (Integer, Number) | (Number, Integer) => Number,
        (Boolean, Boolean) | (Integer, Integer) | (Number, Number) => left,
        (String, String) | (Datetime, Datetime) | (Bytes, Bytes) => left,
        _ => {
            trace!("Invalid union collapse of atoms {:?} and {:?}", left, right);
            Json
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Object {
    pub fields"""))
r("a11-union-required-clone", (AST, """                            let required: Option<HashSet<String>> =
                                match (&left.required, &right.required) {
                                    (Some(x), Some(y)) => {
                                        Some(x.intersection(y).map(ToString::to_string).collect())
                                    }
                                    _ => None,
                                };
""", """                            let required = if let (Some(x), Some(y)) = (&left.required, &right.required) {
                                let both: HashSet<String> =
                                    x.iter().filter(|name| y.contains(*name)).cloned().collect();
                                Some(both)
                            } else {
                                None
                            };
"""))
r("a12-union-consistent-all", (AST, """                        let is_consistent = !result
                            .iter()
                            .any(|(_, v)| matches!(v.data_type, Type::Atom(Atom::Json)));
                        if is_consistent {""", """                        let is_json = |tag: &Tag| matches!(tag.data_type, Type::Atom(Atom::Json));
                        if result.values().all(|tag| !is_json(tag)) {"""))
r("a13-union-map-iter", (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Map(map) => *map.value.clone(),
                    _ => panic!("Invalid map found during union collapse"),
                })
                .collect();
            Type::Map""", """            let mut tags: Vec<Tag> = Vec::with_capacity(items.len());
            for item in items {
                match item.data_type {
                    Type::Map(map) => tags.push(*map.value),
                    _ => unreachable!("Invalid map found during union collapse"),
                }
            }
            Type::Map"""))
r("a14-union-array-filter-map", (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Array(array) => *array.items.clone(),
                    _ => panic!("Invalid array found during union collapse"),
                })
                .collect();
""", """            let tags: Vec<Tag> = items
                .iter()
                .filter_map(|x| {
                    if let Type::Array(array) = &x.data_type {
                        Some(array.items.as_ref().clone())
                    } else {
                        None
                    }
                })
                .collect();
"""))
r("a15-union-head", (AST, """        let mut items = self.items.clone();
        items.iter_mut().for_each(Tag::collapse);

        let is_null = items.iter().any(Tag::is_null);
""", """        let items: Vec<Tag> = self
            .items
            .iter()
            .map(|item| {
                let mut item = item.clone();
                item.collapse();
                item
            })
            .collect();

        let mut is_null = false;
        for item in &items {
            if item.is_null() {
                is_null = true;
                break;
            }
        }
"""))
r("a16-union-retain", (AST, """        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();
""", """        items.retain(|x| !x.is_null());
"""))
r("a17-union-single-slice", (AST, """        if items.is_empty() {
            panic!("empty union is not allowed")
        } else if items.len() == 1 {
            return Tag {
                name: None,
                namespace: None,
                nullable: is_null || items[0].nullable,
                is_root: false,
                data_type: items[0].data_type.clone(),
                description: None,
                title: None,
            };
        }
""", """        match items.as_slice() {
            [] => panic!("empty union is not allowed"),
            [only] => {
                return Tag::new(
                    only.data_type.clone(),
                    None,
                    is_null || only.nullable,
                    None,
                    None,
                )
            }
            _ => {}
        }
"""))
r("a18-union-tail-new", (AST, """        let mut tag = Tag {
            name: None,
            namespace: None,
            nullable,
            data_type,
            is_root: false,
            description: None,
            title: None,
        };
        tag.infer_nullability(false);
        tag
""", """        let mut tag = Tag {
            nullable,
            data_type,
            ..Tag::default()
        };
        tag.infer_nullability(false);
        tag
"""))
r("a19-is-type-match", (AST, """    pub fn is_null(&self) -> bool {
        matches!(&self.data_type, Type::Null)
    }

    pub fn is_atom(&self) -> bool {
        matches!(&self.data_type, Type::Atom(_))
    }
""", """    pub fn is_null(&self) -> bool {
        match self.data_type {
            Type::Null => true,
            _ => false,
        }
    }

    pub fn is_atom(&self) -> bool {
        if let Type::Atom(_) = self.data_type {
            true
        } else {
            false
        }
    }
"""))
r("a20-numeric-prefix-chars", (AST, """        if name.starts_with(char::is_numeric) {
            format!("_{}", name)
        } else {
            name
        }
""", """        match name.chars().next() {
            Some(first) if first.is_numeric() => format!("_{}", name),
            _ => name,
        }
"""))
r("a21-numeric-prefix-insert", (AST, """    fn normalize_numeric_prefix(name: String) -> String {
        if name.starts_with(char::is_numeric) {
            format!("_{}", name)
        } else {
            name
        }
""", """    fn normalize_numeric_prefix(mut name: String) -> String {
        if name.starts_with(|c: char| c.is_numeric()) {
            name.insert(0, '_');
        }
        name
"""))
r("a22-name-then", (AST, """        if re.is_match(&renamed) {
            Some(renamed)
        } else {
            None
        }
    }

    /// Renames a valid""", """        re.is_match(&renamed).then_some(renamed)
    }

    /// Renames a valid"""))
r("a23-name-replace-closure", (AST, """string.replace(['.', '-'], "_")""", """string.replace(|c: char| c == '.' || c == '-', "_")"""))
r("a24-name-replace-two", (AST, """string.replace(['.', '-'], "_")""", """string.replace('.', "_").replace('-', "_")"""))
r("a25-case-empty-filter", (AST, """        if renamed.is_empty() {
            None
        } else {
            Some(renamed)
        }
""", """        Some(renamed).filter(|name| !name.is_empty())
"""))
r("a26-properties-let-else", (AST, """            let fields = &mut object.fields;
            let mut keys: Vec<String> = fields.keys().cloned().collect();
            keys.sort();
""", """            let fields = &mut object.fields;
            let mut keys: Vec<String> = fields.keys().map(|key| key.to_string()).collect();
            keys.sort_unstable();
"""))
r("a27-properties-remove-insert", (AST, """                        fields.insert(renamed, fields[&key].clone());
                        fields.remove(&key);
""", """                        if let Some(value) = fields.remove(&key) {
                            fields.insert(renamed, value);
                        }
"""))
r("a28-properties-match", (AST, """                let normalized = Tag::normalize_name_bigquery(&key).and_then(|renamed| {
                    if normalize_case {
                        Tag::normalize_name_case(&renamed)
                    } else {
                        Some(renamed)
                    }
                });
                if let Some(renamed) = normalized {
                    if renamed.as_str() != key.as_str() {
                        warn!("{} replaced with {}", key, renamed);
                        fields.insert(renamed, fields[&key].clone());
                        fields.remove(&key);
                    }
                } else {
                    warn!("Omitting {} - not a valid property name", key);
                    fields.remove(&key);
                }
""", """                match Tag::normalized_name(&key, normalize_case) {
                    Some(renamed) if renamed == key => {}
                    Some(renamed) => {
                        warn!("{} replaced with {}", key, renamed);
                        let value = fields[&key].clone();
                        fields.insert(renamed, value);
                        fields.remove(&key);
                    }
                    None => {
                        warn!("Omitting {} - not a valid property name", key);
                        fields.remove(&key);
                    }
                }
"""), (AST, """            object.required = match &object.required {
                Some(required) => {
                    let renamed: HashSet<String> = required
                        .iter()
                        .map(String::as_str)
                        .filter_map(Tag::normalize_name_bigquery)
                        .collect();
                    if normalize_case {
                        Some(
                            renamed
                                .iter()
                                .filter_map(|s| Tag::normalize_name_case(s))
                                .collect(),
                        )
                    } else {
                        Some(renamed)
                    }
                }
                None => None,
            };
""", """            object.required = object.required.as_ref().map(|required| {
                required
                    .iter()
                    .filter_map(|name| Tag::normalized_name(name, normalize_case))
                    .collect()
            });
"""), (AST, """    /// Fix properties of an object to adhere the BigQuery column name
""", """    /// The name of a property in the output, when it has one.
    fn normalized_name(name: &str, normalize_case: bool) -> Option<String> {
        let renamed = Tag::normalize_name_bigquery(name)?;
        if normalize_case {
            Tag::normalize_name_case(&renamed)
        } else {
            Some(renamed)
        }
    }

    /// Fix properties of an object to adhere the BigQuery column name
"""))
r("a29-required-take", (AST, """            object.required = match &object.required {
                Some(required) => {
                    let renamed: HashSet<String> = required
                        .iter()
                        .map(String::as_str)
                        .filter_map(Tag::normalize_name_bigquery)
                        .collect();
""", """            object.required = match object.required.take() {
                Some(required) => {
                    let mut renamed: HashSet<String> = HashSet::new();
                    for name in &required {
                        if let Some(name) = Tag::normalize_name_bigquery(name) {
                            renamed.insert(name);
                        }
                    }
"""))
r("a30-recurse-method", (AST, """        let set_and_recurse = |tag: &mut Tag, name: &str| {
            tag.set_name(name, &namespace);
            tag.recurse_infer_name(format!("{}.{}", &namespace, name), normalize_case)
        };
""", """        let set_and_recurse = |tag: &mut Tag, name: &str| {
            let path = namespace.clone() + "." + name;
            tag.set_name(name, &namespace);
            tag.recurse_infer_name(path, normalize_case);
        };
"""))
r("a31-recurse-str", (AST, "fn recurse_infer_name(&mut self, namespace: String, normalize_case: bool) {", "fn recurse_infer_name(&mut self, namespace: &str, normalize_case: bool) {"),
  (AST, """            tag.set_name(name, &namespace);
            tag.recurse_infer_name(format!("{}.{}", &namespace, name), normalize_case)
""", """            tag.set_name(name, namespace);
            tag.recurse_infer_name(&format!("{}.{}", namespace, name), normalize_case)
"""), (AST, "        self.recurse_infer_name(namespace, normalize_case);", "        self.recurse_infer_name(&namespace, normalize_case);"))
r("a32-tuple-zip", (AST, """                for (i, item) in tuple.items.iter_mut().enumerate() {
                    let name = format!("f{}_", i);
                    set_and_recurse(item, &name);
                }
""", """                let mut position = 0;
                for item in tuple.items.iter_mut() {
                    set_and_recurse(item, &format!("f{}_", position));
                    position += 1;
                }
"""))
r("a33-translate-from", (AST, """        let mut tag = tag.type_into_ast(context)?;
        tag.infer_name(context.normalize_case);
        tag.infer_nullability(context.force_nullable);
        tag.is_root = true;
        Ok(tag)
""", """        let result = tag.type_into_ast(context);
        let mut tag = match result {
            Ok(tag) => tag,
            Err(reason) => return Err(reason),
        };
        tag.is_root = true;
        tag.infer_name(context.normalize_case);
        tag.infer_nullability(context.force_nullable);
        Ok(tag)
"""))
r("a34-object-new-loop", (AST, """        let fields: HashMap<String, Box<Tag>> =
            fields.into_iter().map(|(k, v)| (k, Box::new(v))).collect();
        Object { fields, required }
""", """        let mut boxed = HashMap::with_capacity(fields.len());
        for (key, value) in fields {
            boxed.insert(key, Box::new(value));
        }
        Object {
            fields: boxed,
            required,
        }
"""))
r("a35-map-new-tag-new", (AST, """            key: Box::new(Tag {
                name: key,
                namespace: None,
                data_type: Type::Atom(Atom::String),
                nullable: false,
                is_root: false,
                description: None,
                title: None,
            }),
""", """            key: Box::new(Tag::new(Type::Atom(Atom::String), key, false, None, None)),
"""))
r("a36-regex-once", (AST, """        let re = Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap();
        let renamed""", """        static COLUMN_NAME: std::sync::OnceLock<Regex> = std::sync::OnceLock::new();
        let re = COLUMN_NAME.get_or_init(|| Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap());
        let renamed"""))
r("a37-regex-lazylock", (AST, """        let re = Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap();
        let renamed""", """        let re = &*COLUMN_NAME;
        let renamed"""), (AST, """#[derive(Serialize, Deserialize, Debug, Copy, Clone)]
#[serde(rename_all = "lowercase")]
pub enum Atom {""", """static COLUMN_NAME: std::sync::LazyLock<Regex> =
    std::sync::LazyLock::new(|| Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap());

#[derive(Serialize, Deserialize, Debug, Copy, Clone)]
#[serde(rename_all = "lowercase")]
pub enum Atom {"""))
r("a38-regex-w", (AST, """r"^[a-zA-Z_][a-zA-Z0-9_]*$\"""", """r"^[A-Za-z_][A-Za-z_0-9]*$\""""))
r("a39-union-match-kind", (AST, """        } else if items.iter().all(Tag::is_map) {""", """        } else if items.iter().filter(|item| item.is_map()).count() == items.len() {"""))
r("a40-collapse-union-mem", (AST, """                let tag = union.collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
""", """                let Tag {
                    data_type,
                    nullable,
                    ..
                } = union.collapse();
                self.nullable = self.nullable || nullable;
                self.data_type = data_type;
"""))
r("a41-union-fold-loop", (AST, """            items
                .into_iter()
                .fold(Type::Null, |acc, x| match (acc, &x.data_type) {
                    (Type::Null, Type::Atom(atom)) => Type::Atom(*atom),
                    (Type::Atom(left), Type::Atom(right)) => {
                        let atom = match (left, right) {
                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,
                            (Atom::Integer, Atom::Integer) => Atom::Integer,
                            (Atom::Number, Atom::Number)
                            | (Atom::Integer, Atom::Number)
                            | (Atom::Number, Atom::Integer) => Atom::Number,
                            (Atom::String, Atom::String) => Atom::String,
                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                            (lhs, rhs) => {
                                trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                Atom::Json
                            }
                        };
                        Type::Atom(atom)
                    }
                    _ => {
                        trace!("Invalid union collapse of atoms found during fold");
                        Type::Atom(Atom::Json)
                    }
                })
""", """            let mut result = Type::Null;
            for item in &items {
                result = match (&result, &item.data_type) {
                    (Type::Null, Type::Atom(atom)) => Type::Atom(*atom),
                    (Type::Atom(left), Type::Atom(right)) => Type::Atom(match (left, right) {
                        (Atom::Boolean, Atom::Boolean) => Atom::Boolean,
                        (Atom::Integer, Atom::Integer) => Atom::Integer,
                        (Atom::Number, Atom::Number)
                        | (Atom::Integer, Atom::Number)
                        | (Atom::Number, Atom::Integer) => Atom::Number,
                        (Atom::String, Atom::String) => Atom::String,
                        (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
                        (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                        (lhs, rhs) => {
                            trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                            Atom::Json
                        }
                    }),
                    _ => Type::Atom(Atom::Json),
                };
            }
            result
"""))

# ---- avro.rs
r("v01-field-helper", (AVRO, """                        .map(|(k, v)| {
                            let default = if v.nullable { Some(json!(null)) } else { None };
                            (
                                k.to_string(),
                                Type::translate_from(*v.clone(), context),
                                default,
                            )
                        })
                        .filter(|(_, v, _)| v.is_ok())
                        .map(|(name, data_type, default)| Field {
                            name,
                            data_type: data_type.unwrap(),
                            default,
                            ..Default::default()
                        })
                        .collect()
""", """                        .filter_map(|(k, v)| {
                            let data_type = Type::translate_from(*v.clone(), context).ok()?;
                            Some(Field {
                                name: k.to_string(),
                                doc: None,
                                data_type,
                                default: v.nullable.then(|| Value::Null),
                            })
                        })
                        .collect()
"""))
r("v02-field-loop", (AVRO, """                let mut fields: Vec<Field> = if object.fields.is_empty() {
                    Vec::new()
                } else {
                    object
                        .fields
                        .iter()
                        .map(|(k, v)| {
                            let default = if v.nullable { Some(json!(null)) } else { None };
                            (
                                k.to_string(),
                                Type::translate_from(*v.clone(), context),
                                default,
                            )
                        })
                        .filter(|(_, v, _)| v.is_ok())
                        .map(|(name, data_type, default)| Field {
                            name,
                            data_type: data_type.unwrap(),
                            default,
                            ..Default::default()
                        })
                        .collect()
                };
""", """                let mut fields: Vec<Field> = Vec::new();
                for (name, value) in &object.fields {
                    if let Ok(data_type) = Type::translate_from(*value.clone(), context) {
                        fields.push(Field {
                            name: name.clone(),
                            data_type,
                            default: if value.nullable { Some(json!(null)) } else { None },
                            ..Default::default()
                        });
                    }
                }
"""))
r("v03-sort-keys-first", (AVRO, """                    object
                        .fields
                        .iter()
                        .map(|(k, v)| {""", """                    let mut entries: Vec<_> = object.fields.iter().collect();
                    entries.sort_by(|a, b| a.0.cmp(b.0));
                    entries
                        .into_iter()
                        .map(|(k, v)| {"""), (AVRO, """                    fields.sort_by_key(|v| v.name.to_string());
""", ""), (AVRO, "                let mut fields: Vec<Field> = if object", "                let fields: Vec<Field> = if object"))
r("v04-sort-by", (AVRO, "fields.sort_by_key(|v| v.name.to_string());", "fields.sort_by(|a, b| a.name.cmp(&b.name));"))
r("v05-sort-unstable", (AVRO, "fields.sort_by_key(|v| v.name.to_string());", "fields.sort_unstable_by(|a, b| a.name.as_str().cmp(b.name.as_str()));"))
r("v06-sort-cached", (AVRO, "fields.sort_by_key(|v| v.name.to_string());", "fields.sort_by_cached_key(|field| field.name.clone());"))
r("v07-btreemap", (AVRO, """                    object
                        .fields
                        .iter()
                        .map(|(k, v)| {""", """                    let sorted: std::collections::BTreeMap<_, _> = object.fields.iter().collect();
                    sorted
                        .into_iter()
                        .map(|(k, v)| {"""), (AVRO, """                    fields.sort_by_key(|v| v.name.to_string());
""", ""), (AVRO, "                let mut fields: Vec<Field> = if object", "                let fields: Vec<Field> = if object"))
r("v08-handle-error-match", (AVRO, """            match context.resolve_method {
                ResolveMethod::Cast => {
                    warn!("{}", message);
                    Ok(Type::Primitive(Primitive::String))
                }
                ResolveMethod::Drop => Err(message),
                ResolveMethod::Panic => panic!("{}", message),
            }
""", """            if let ResolveMethod::Panic = context.resolve_method {
                panic!("{}", message);
            }
            if matches!(context.resolve_method, ResolveMethod::Drop) {
                return Err(message);
            }
            warn!("{}", message);
            Ok(Type::Primitive(Primitive::String))
"""))
r("v09-json-map", (AVRO, """                ast::Atom::Json => match handle_error("json atom") {
                    Ok(_) => Primitive::String,
                    Err(reason) => return Err(reason),
                },
""", """                ast::Atom::Json => {
                    handle_error("json atom")?;
                    Primitive::String
                }
"""))
r("v10-common-helper", (AVRO, """                    let record = Record {
                        common: CommonAttributes {
                            // This is not a safe assumption
                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
                            namespace: tag.namespace.clone(),
                            ..Default::default()
                        },
                        fields,
                    };
""", """                    let record = make_record(&tag, fields);
"""), (AVRO, """                let record = Record {
                    common: CommonAttributes {
                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
                        namespace: tag.namespace.clone(),
                        ..Default::default()
                    },
                    fields,
                };
""", """                let record = make_record(&tag, fields);
"""), (AVRO, """impl TranslateFrom<ast::Tag> for Type {
""", """/// A record under the name of the tag it stands for.
fn make_record(tag: &ast::Tag, fields: Vec<Field>) -> Record {
    let name = match &tag.name {
        Some(name) => name.clone(),
        None => "__UNNAMED__".to_string(),
    };
    Record {
        common: CommonAttributes {
            name,
            namespace: tag.namespace.clone(),
            doc: None,
            aliases: None,
        },
        fields,
    }
}

impl TranslateFrom<ast::Tag> for Type {
"""))
r("v11-wrap-nullable-helper", (AVRO, """        if tag.nullable && !tag.is_null() {
            Ok(Type::Union(vec![
                Type::Primitive(Primitive::Null),
                data_type,
            ]))
        } else {
            Ok(data_type)
        }
""", """        if !tag.nullable || tag.is_null() {
            return Ok(data_type);
        }
        let alternatives = vec![Type::Primitive(Primitive::Null), data_type];
        Ok(Type::Union(alternatives))
"""))
r("v12-array-flat", (AVRO, """                match Type::translate_from(*array.items.clone(), context) {
                    Ok(data_type) => {
                        if child_is_array {
                            Type::Complex(Complex::Array(Array {
                                items: Box::new(Type::Complex(Complex::Record(Record {
                                    common: CommonAttributes {
                                        name: tag
                                            .name
                                            .clone()
                                            .unwrap_or_else(|| "__UNNAMED__".into()),
                                        namespace: tag.namespace.clone(),
                                        ..Default::default()
                                    },
                                    fields: vec![Field {
                                        name: "list".into(),
                                        data_type,
                                        default: if array.items.nullable {
                                            Some(json!(null))
                                        } else {
                                            None
                                        },
                                        ..Default::default()
                                    }],
                                }))),
                            }))
                        } else {
                            Type::Complex(Complex::Array(Array {
                                items: Box::new(data_type),
                            }))
                        }
                    }
                    Err(_) => return Err(fmt_reason("untyped array")),
                }
""", """                let inner = Type::translate_from(*array.items.clone(), context)
                    .map_err(|_| fmt_reason("untyped array"))?;
                let items = if child_is_array {
                    let list = Field {
                        name: "list".to_string(),
                        data_type: inner,
                        default: if array.items.nullable { Some(Value::Null) } else { None },
                        ..Default::default()
                    };
                    Type::Complex(Complex::Record(Record {
                        common: CommonAttributes {
                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
                            namespace: tag.namespace.clone(),
                            ..Default::default()
                        },
                        fields: vec![list],
                    }))
                } else {
                    inner
                };
                Type::Complex(Complex::Array(Array {
                    items: Box::new(items),
                }))
"""))
r("v13-map-question", (AVRO, """            ast::Type::Map(map) => match Type::translate_from(*map.value.clone(), context) {
                Ok(data_type) => Type::Complex(Complex::Map(Map {
                    values: Box::new(data_type),
                })),
                // Err is only reachable when context.resolve_method is Drop
                Err(_) => {
                    return if context.allow_maps_without_value {
                        Err(fmt_reason("map value cannot be dropped in avro"))
                    } else {
                        Err(fmt_reason("untyped map value"))
                    }
                }
            },
""", """            ast::Type::Map(map) => {
                let value = Type::translate_from(*map.value.clone(), context);
                if value.is_err() {
                    let reason = if context.allow_maps_without_value {
                        "map value cannot be dropped in avro"
                    } else {
                        "untyped map value"
                    };
                    return Err(fmt_reason(reason));
                }
                Type::Complex(Complex::Map(Map {
                    values: Box::new(value.unwrap()),
                }))
            }
"""))
r("v14-prepare-helper", (AVRO, """        let mut tag = tag;
        if tag.is_root {
            // Name inference is run only from the root for the proper
            // construction of the namespace. Fully qualified names require a
            // top-down approach.
            tag.collapse();
            tag.name = Some("root".into());
            tag.infer_name(context.normalize_case);
        }
        tag.infer_nullability(context.force_nullable);
""", """        let tag = prepare(tag, context);
"""), (AVRO, """impl TranslateFrom<ast::Tag> for Type {
""", """/// Resolves the unions of the root, names its nodes, and finds the null-able nodes.
fn prepare(mut tag: ast::Tag, context: &Context) -> ast::Tag {
    if tag.is_root {
        tag.name = Some(String::from("root"));
        tag.collapse();
        tag.infer_name(context.normalize_case);
    }
    tag.infer_nullability(context.force_nullable);
    tag
}

impl TranslateFrom<ast::Tag> for Type {
"""))
r("v15-tuple-index", (AVRO, """                let fields = tuple
                    .items
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let default = if v.nullable { Some(json!(null)) } else { None };
                        (
                            format!("f{}_", i),
                            Type::translate_from(v.clone(), context),
                            default,
                        )
                    })
                    .filter(|(_, v, _)| v.is_ok())
                    .map(|(name, data_type, default)| Field {
                        name,
                        data_type: data_type.unwrap(),
                        default,
                        ..Default::default()
                    })
                    .collect();
""", """                let mut fields = Vec::with_capacity(tuple.items.len());
                for (i, item) in tuple.items.iter().enumerate() {
                    let default = if item.nullable { Some(json!(null)) } else { None };
                    match Type::translate_from(item.clone(), context) {
                        Ok(data_type) => fields.push(Field {
                            name: format!("f{}_", i),
                            data_type,
                            default,
                            ..Default::default()
                        }),
                        Err(_) => continue,
                    }
                }
"""))
r("v16-atom-helper", (AVRO, """            ast::Type::Atom(atom) => Type::Primitive(match atom {
                ast::Atom::Boolean => Primitive::Boolean,
                ast::Atom::Integer => Primitive::Long,
                ast::Atom::Number => Primitive::Double,
                ast::Atom::String => Primitive::String,
                ast::Atom::Datetime => Primitive::String,
                ast::Atom::Bytes => Primitive::Bytes,
                ast::Atom::Json => match handle_error("json atom") {
                    Ok(_) => Primitive::String,
                    Err(reason) => return Err(reason),
                },
            }),
""", """            ast::Type::Atom(ast::Atom::Json) => handle_error("json atom")?,
            ast::Type::Atom(atom) => Type::Primitive(match atom {
                ast::Atom::Boolean => Primitive::Boolean,
                ast::Atom::Integer => Primitive::Long,
                ast::Atom::Number => Primitive::Double,
                ast::Atom::Bytes => Primitive::Bytes,
                _ => Primitive::String,
            }),
"""))
r("v17-into-iter-owned", (AVRO, "        let data_type = match &tag.data_type {\n            ast::Type::Null => Type::Primitive(Primitive::Null),", "        let node = tag.data_type.clone();\n        let data_type = match &node {\n            ast::Type::Null => Type::Primitive(Primitive::Null),"))

# ---- bigquery.rs
r("b01-sort-by", (BQ, "                vec.sort_by_key(|(key, _)| key.to_string());\n                let columns", "                vec.sort_by(|(a, _), (b, _)| a.cmp(b));\n                let columns"))
r("b02-sort-unstable-key", (BQ, "                vec.sort_by_key(|(key, _)| key.to_string());\n                let columns", "                vec.sort_unstable_by_key(|entry| entry.0.clone());\n                let columns"))
r("b03-btree-columns", (BQ, """                let mut vec: Vec<_> = record.fields.into_iter().collect();
                vec.sort_by_key(|(key, _)| key.to_string());
                let columns = vec.into_iter().map(|(_, v)| *v).collect();
                Ok(Schema::Root(columns))
""", """                let sorted: std::collections::BTreeMap<String, Box<Tag>> =
                    record.fields.into_iter().collect();
                Ok(Schema::Root(sorted.into_values().map(|tag| *tag).collect()))
"""))
r("b04-schema-merge-arms", (BQ, """        match *bq_tag.data_type {
            // Maps and arrays are both treated as a Record type with different
            // modes. These should not be extracted if they are the root-type.
            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                assert!(bq_tag.name.is_none());
                bq_tag.name = Some(DEFAULT_COLUMN.into());
                Ok(Schema::Root(vec![bq_tag]))
            }
            Type::Atom(_) => {
                assert!(bq_tag.name.is_none());
                bq_tag.name = Some(DEFAULT_COLUMN.into());
                Ok(Schema::Root(vec![bq_tag]))
            }
            Type::Record(record) => {
                let mut vec""", """        let repeated = matches!(bq_tag.mode, Mode::Repeated);
        match *bq_tag.data_type {
            Type::Record(record) if !repeated => {
                let mut vec"""), (BQ, """                let columns = vec.into_iter().map(|(_, v)| *v).collect();
                Ok(Schema::Root(columns))
            }
""", """                let columns = vec.into_iter().map(|(_, v)| *v).collect();
                Ok(Schema::Root(columns))
            }
            other => {
                assert!(bq_tag.name.is_none());
                bq_tag.name = Some(DEFAULT_COLUMN.to_string());
                bq_tag.data_type = Box::new(other);
                Ok(Schema::Root(vec![bq_tag]))
            }
"""))
r("b05-mode-match", (BQ, """        let mode = if tag.is_array() || tag.is_map() {
            Mode::Repeated
        } else if tag.is_null() || tag.nullable {
            Mode::Nullable
        } else {
            Mode::Required
        };
""", """        let mode = match &tag.data_type {
            ast::Type::Array(_) | ast::Type::Map(_) => Mode::Repeated,
            ast::Type::Null => Mode::Nullable,
            _ if tag.nullable => Mode::Nullable,
            _ => Mode::Required,
        };
"""))
r("b06-mode-fn", (BQ, """        let mode = if tag.is_array() || tag.is_map() {
            Mode::Repeated
        } else if tag.is_null() || tag.nullable {
            Mode::Nullable
        } else {
            Mode::Required
        };
""", """        let mode = column_mode(&tag);
"""), (BQ, """impl TranslateFrom<ast::Tag> for Tag {
""", """fn column_mode(tag: &ast::Tag) -> Mode {
    if tag.is_array() || tag.is_map() {
        return Mode::Repeated;
    }
    if tag.nullable || tag.is_null() {
        return Mode::Nullable;
    }
    Mode::Required
}

impl TranslateFrom<ast::Tag> for Tag {
"""))
r("b07-description-tuple", (BQ, """        let description = match tag.title {
            Some(title) => match tag.description {
                Some(description) => Some(format!("{} - {}", title, description)),
                None => Some(title),
            },
            None => tag.description,
        };
""", """        let description = match (tag.title, tag.description) {
            (Some(title), Some(description)) => Some(format!("{} - {}", title, description)),
            (Some(text), None) | (None, Some(text)) => Some(text),
            (None, None) => None,
        };
"""))
r("b08-description-or", (BQ, """        let description = match tag.title {
            Some(title) => match tag.description {
                Some(description) => Some(format!("{} - {}", title, description)),
                None => Some(title),
            },
            None => tag.description,
        };
""", """        let both = tag
            .title
            .as_ref()
            .zip(tag.description.as_ref())
            .map(|(title, description)| format!("{title} - {description}"));
        let description = both.or(tag.title).or(tag.description);
"""))
r("b09-truncate-helper", (BQ, """        let truncated_description =
            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());
""", """        let truncated_description = description.map(truncate);
"""), (BQ, """impl TranslateFrom<ast::Tag> for Tag {
""", """/// The maximum length is 1024 characters for BigQuery schemas
fn truncate(text: String) -> String {
    if text.chars().count() <= MAX_DESCRIPTION_LENGTH {
        return text;
    }
    text.chars().take(MAX_DESCRIPTION_LENGTH).collect()
}

impl TranslateFrom<ast::Tag> for Tag {
"""))
r("b10-truncate-char-indices", (BQ, """            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());
""", """            description.map(|d| match d.char_indices().nth(MAX_DESCRIPTION_LENGTH) {
                Some((end, _)) => d[..end].to_string(),
                None => d,
            });
"""))
r("b11-fields-filter-map", (BQ, """                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))
                        .filter(|(_, v)| v.is_ok())
                        .map(|(k, v)| (k, Box::new(v.unwrap())))
                        .collect()
""", """                        .filter_map(|(k, v)| match Tag::translate_from(*v.clone(), context) {
                            Ok(tag) => Some((k.clone(), Box::new(tag))),
                            Err(_) => None,
                        })
                        .collect()
"""))
r("b12-fields-loop", (BQ, """                let fields: HashMap<String, Box<Tag>> = if object.fields.is_empty() {
                    HashMap::new()
                } else {
                    object
                        .fields
                        .iter()
                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))
                        .filter(|(_, v)| v.is_ok())
                        .map(|(k, v)| (k, Box::new(v.unwrap())))
                        .collect()
                };
""", """                let mut fields: HashMap<String, Box<Tag>> = HashMap::new();
                for (name, field) in &object.fields {
                    let translated = Tag::translate_from((**field).clone(), context);
                    if let Ok(tag) = translated {
                        fields.insert(name.to_string(), Box::new(tag));
                    }
                }
"""))
r("b13-fields-into-iter-flatmap", (BQ, """                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))
                        .filter(|(_, v)| v.is_ok())
                        .map(|(k, v)| (k, Box::new(v.unwrap())))
                        .collect()
""", """                        .map(|(k, v)| (k, Tag::translate_from(*v.clone(), context)))
                        .flat_map(|(k, v)| v.map(|tag| (k.to_owned(), Box::new(tag))))
                        .collect()
"""))
r("b14-map-fields-insert", (BQ, """                let fields: HashMap<String, Box<Tag>> =
                    vec![Some(("key", key)), value.map(|v| ("value", v))]
                        .into_iter()
                        .flatten()
                        .map(|(k, v)| (k.to_string(), Box::new(v)))
                        .collect();
                Type::Record(Record { fields })
""", """                let mut fields = HashMap::new();
                fields.insert("key".to_string(), Box::new(key));
                if let Some(value) = value {
                    fields.insert("value".to_string(), Box::new(value));
                }
                Type::Record(Record { fields })
"""))
r("b15-map-value-guard", (BQ, """                    Ok(tag) => Some(tag),
                    Err(_) => {
                        if context.allow_maps_without_value {
                            None
                        } else {
                            return Err(fmt_reason("untyped map value"));
                        }
                    }
""", """                    Ok(tag) => Some(tag),
                    Err(_) if context.allow_maps_without_value => None,
                    Err(_) => return Err(fmt_reason("untyped map value")),
"""))
r("b16-array-map-err", (BQ, """                let sub_tag = match Tag::translate_from(*array.items.clone(), context) {
                    Ok(tag) => tag,
                    Err(_) => return Err(fmt_reason("untyped array")),
                };
                if child_is_array {
                    Type::Record(Record {
                        fields: hashmap! {"list".into() => Box::new(sub_tag)},
                    })
                } else {
                    *sub_tag.data_type
                }
""", """                let sub_tag = Tag::translate_from(*array.items.clone(), context)
                    .map_err(|_| fmt_reason("untyped array"))?;
                if !child_is_array {
                    *sub_tag.data_type
                } else {
                    let mut fields = HashMap::new();
                    fields.insert("list".to_string(), Box::new(sub_tag));
                    Type::Record(Record { fields })
                }
"""))
r("b17-tuple-loop", (BQ, """                let fields: Result<Vec<_>, _> = tuple
                    .items
                    .iter()
                    .map(|v| Tag::translate_from(v.clone(), context))
                    .collect();

                let named_fields: HashMap<String, Box<Tag>> = fields?
                    .into_iter()
                    .enumerate()
                    .map(|(i, mut v)| {
                        // The name is actually derived from the value, not from
                        // the associated key. Modify the name in place.
                        let name = format!("f{}_", i);
                        v.name = Some(name.clone());
                        (name, Box::new(v))
                    })
                    .collect();
""", """                let mut named_fields: HashMap<String, Box<Tag>> = HashMap::new();
                for (i, item) in tuple.items.iter().enumerate() {
                    let mut field = Tag::translate_from(item.clone(), context)?;
                    let name = format!("f{}_", i);
                    field.name = Some(name.clone());
                    named_fields.insert(name, Box::new(field));
                }
"""))
r("b18-json-path-first", (BQ, """                    if context.is_json_object_path(&tag.fully_qualified_name()) {
                        Atom::Json
                    } else {
                        match handle_error("json atom") {
                            Ok(_) => Atom::String,
                            Err(reason) => return Err(reason),
                        }
                    }
""", """                    let path = tag.fully_qualified_name();
                    if !context.is_json_object_path(&path) {
                        let _ = handle_error("json atom")?;
                        Atom::String
                    } else {
                        Atom::Json
                    }
"""))
r("b19-serialize-collect", (BQ, """        let mut seq = serializer.serialize_seq(Some(map.len()))?;
        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();
        vec.sort_by_key(|(k, _)| k.to_string());

        for (_, element) in vec {
            seq.serialize_element(element)?;
        }
        seq.end()
""", """        let mut names: Vec<&String> = map.keys().collect();
        names.sort();
        let mut seq = serializer.serialize_seq(Some(names.len()))?;
        for name in names {
            seq.serialize_element(&map[name])?;
        }
        seq.end()
"""))
r("b20-serialize-sort-by", (BQ, """        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();
        vec.sort_by_key(|(k, _)| k.to_string());
""", """        let mut vec: Vec<(&String, &Box<Tag>)> = map.iter().collect();
        vec.sort_by(|a, b| a.0.cmp(b.0));
"""))
r("b21-name-take", (BQ, """        Ok(Tag {
            name: tag.name.clone(),
            data_type: Box::new(data_type),
""", """        let name = tag.name;
        Ok(Tag {
            name,
            data_type: Box::new(data_type),
"""))
r("b22-collect-columns", (BQ, """        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
""", """        let mut bq_tag = match Tag::translate_from(tag, context) {
            Ok(tag) => tag,
            Err(reason) => panic!("{}", reason),
        };
"""))
r("b23-expect", (BQ, """        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
""", """        let mut bq_tag = Tag::translate_from(tag, context).expect("the root cannot be translated");
"""))

# ---- jsonschema.rs
r("j01-get-type-if", (JS, """            (Value::String(string), Some(Format::DateTime)) if string == "string" => {
                Type::Atom(Atom::DateTime)
            }
            (Value::String(string), Some(Format::Bytes)) if string == "string" => {
                Type::Atom(Atom::Bytes)
            }
            (Value::String(string), _) => {
                let atom: Atom = serde_json::from_value(json!(string)).unwrap();
                Type::Atom(atom)
            }
""", """            (Value::String(string), format) => match (string.as_str(), format) {
                ("string", Some(Format::DateTime)) => Type::Atom(Atom::DateTime),
                ("string", Some(Format::Bytes)) => Type::Atom(Atom::Bytes),
                _ => Type::Atom(serde_json::from_value(json!(string)).unwrap()),
            },
"""))
r("j02-get-type-loop", (JS, """                let list: Vec<Atom> = array
                    .iter()
                    .map(|v| serde_json::from_value(json!(v)).unwrap())
                    .collect();
                Type::List(list)
""", """                let mut list: Vec<Atom> = Vec::new();
                for value in array {
                    let atom: Atom = serde_json::from_value(value.clone()).unwrap();
                    list.push(atom);
                }
                Type::List(list)
"""))
r("j03-list-any", (JS, """                let mut nullable: bool = false;
                let mut items: Vec<ast::Tag> = Vec::new();
                for atom in list {
                    if let Atom::Null = &atom {
                        nullable = true;
                    }
                    items.push(self.atom_into_ast(atom, context)?);
                }
""", """                let nullable = list.iter().any(|atom| matches!(atom, Atom::Null));
                let items = list
                    .into_iter()
                    .map(|atom| self.atom_into_ast(atom, context))
                    .collect::<Result<Vec<_>, _>>()?;
"""))
r("j04-scalar-helper", (JS, """            Atom::Boolean => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Boolean),
                None,
                false,
                description,
                title,
            ),
            Atom::Number => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Number),
                None,
                false,
                description,
                title,
            ),
            Atom::Integer => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Integer),
                None,
                false,
                description,
                title,
            ),
""", """            Atom::Boolean => scalar(ast::Atom::Boolean),
            Atom::Number => scalar(ast::Atom::Number),
            Atom::Integer => scalar(ast::Atom::Integer),
"""), (JS, """        let result = match data_type {
            Atom::Null""", """        let scalar = |atom: ast::Atom| {
            ast::Tag::new(
                ast::Type::Atom(atom),
                None,
                false,
                self.description.clone(),
                self.title.clone(),
            )
        };
        let result = match data_type {
            Atom::Null"""))
r("j05-object-helper", (JS, """            Atom::Object => match &self.object.properties {
                Some(properties) => {
                    let mut fields: HashMap<String, ast::Tag> = HashMap::new();
                    for (key, value) in properties {
                        fields.insert(key.to_string(), value.type_into_ast(context)?);
                    }
                    ast::Tag::new(
                        ast::Type::Object(ast::Object::new(fields, self.object.required.clone())),
                        None,
                        false,
                        description,
                        title,
                    )
                }
""", """            Atom::Object => match &self.object.properties {
                Some(properties) => ast::Tag::new(
                    ast::Type::Object(self.properties_into_ast(properties, context)?),
                    None,
                    false,
                    description,
                    title,
                ),
"""), (JS, """    fn atom_into_ast(&self, data""", """    fn properties_into_ast(
        &self,
        properties: &HashMap<String, Box<Tag>>,
        context: &Context,
    ) -> Result<ast::Object, &'static str> {
        let fields = properties
            .iter()
            .map(|(key, value)| Ok((key.clone(), value.type_into_ast(context)?)))
            .collect::<Result<HashMap<String, ast::Tag>, &'static str>>()?;
        Ok(ast::Object::new(fields, self.object.required.clone()))
    }

    fn atom_into_ast(&self, data"""))
r("j06-pattern-loop", (JS, """                            let mut vec: Vec<ast::Tag> = Vec::new();
                            vec.push(add.type_into_ast(context)?);
                            let pat_vec: Result<Vec<_>, _> =
                                pat.values().map(|v| v.type_into_ast(context)).collect();
                            vec.extend(pat_vec?);
""", """                            let mut vec: Vec<ast::Tag> = vec![add.type_into_ast(context)?];
                            for value in pat.values() {
                                vec.push(value.type_into_ast(context)?);
                            }
"""))
r("j07-pattern-chain", (JS, """                            let mut vec: Vec<ast::Tag> = Vec::new();
                            vec.push(add.type_into_ast(context)?);
                            let pat_vec: Result<Vec<_>, _> =
                                pat.values().map(|v| v.type_into_ast(context)).collect();
                            vec.extend(pat_vec?);
""", """                            let vec = std::iter::once(add)
                                .chain(pat.values())
                                .map(|v| v.type_into_ast(context))
                                .collect::<Result<Vec<ast::Tag>, _>>()?;
"""))
r("j08-oneof-loop", (JS, """                                    let items: Result<Vec<_>, _> = vec
                                        .iter()
                                        .map(|item| item.type_into_ast(context))
                                        .collect();
                                    let unwrapped = items?;
                                    let nullable: bool = unwrapped.iter().any(ast::Tag::is_null);
""", """                                    let mut unwrapped = Vec::with_capacity(vec.len());
                                    let mut nullable = false;
                                    for item in vec {
                                        let tag = item.type_into_ast(context)?;
                                        nullable |= tag.is_null();
                                        unwrapped.push(tag);
                                    }
"""))
r("j09-array-let-else", (JS, """                if let Some(items) = &self.array.items {
                    let data_type = match items {""", """                {
                    let Some(items) = &self.array.items else {
                        return Err("array missing item");
                    };
                    let data_type = match items {"""), (JS, """                    ast::Tag::new(data_type, None, false, description, title)
                } else {
                    return Err("array missing item");
                }
""", """                    ast::Tag::new(data_type, None, false, description, title)
                }
"""))
r("j10-tuple-optional", (JS, """                                for item in unwrapped.iter_mut().skip(min_items) {
                                    item.nullable = true;
                                }
""", """                                for (i, item) in unwrapped.iter_mut().enumerate() {
                                    if i >= min_items {
                                        item.nullable = true;
                                    }
                                }
"""))
r("j11-tuple-pad-while", (JS, """                                        for _ in unwrapped.len()..max_items {
                                            let mut ast_tag = tag.type_into_ast(context)?;
                                            ast_tag.nullable = true;
                                            unwrapped.push(ast_tag);
                                        }
""", """                                        while unwrapped.len() < max_items {
                                            let mut ast_tag = tag.type_into_ast(context)?;
                                            ast_tag.nullable = true;
                                            unwrapped.push(ast_tag);
                                        }
"""))
r("j12-tuple-max-match", (JS, """                                        let max_items: usize = self.array.max_items.unwrap_or(0);
                                        if max_items == unwrapped.len() {
                                            ast::Type::Tuple(ast::Tuple::new(unwrapped))
                                        } else {
                                            return Err("maxItems must be set if additionalItems are allowed");
                                        }
""", """                                        let max_items = self.array.max_items.unwrap_or_default();
                                        if unwrapped.len() != max_items {
                                            return Err("maxItems must be set if additionalItems are allowed");
                                        }
                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))
"""))
r("j13-tuple-fn", (JS, """                            if context.tuple_struct {
                                let items: Result<Vec<_>, _> = items
                                    .iter()
                                    .map(|item| item.type_into_ast(context))
                                    .collect();
                                let mut unwrapped = items?;
""", """                            if !context.tuple_struct {
                                ast::Type::Atom(ast::Atom::Json)
                            } else {
                                let mut unwrapped = Vec::new();
                                for item in items {
                                    unwrapped.push(item.type_into_ast(context)?);
                                }
"""), (JS, """                                    _ => return Err("additionalItems set incorrectly"),
                                }
                            } else {
                                ast::Type::Atom(ast::Atom::Json)
                            }
""", """                                    _ => return Err("additionalItems set incorrectly"),
                                }
                            }
"""))
r("j14-nested-match-flat", (JS, """                        (_, Some(tag)) => {
                            let items: Result<Vec<_>, _> =
                                tag.values().map(|v| v.type_into_ast(context)).collect();
                            let union = ast::Tag::new(
                                ast::Type::Union(ast::Union::new(items?)),
                                None,
                                false,
                                None,
                                None,
                            );
""", """                        (None, Some(tag)) | (Some(AdditionalProperties::Bool(_)), Some(tag)) => {
                            let items: Vec<ast::Tag> = tag
                                .iter()
                                .map(|(_, v)| v.type_into_ast(context))
                                .collect::<Result<_, _>>()?;
                            let union = ast::Tag {
                                data_type: ast::Type::Union(ast::Union::new(items)),
                                ..Default::default()
                            };
"""))

# ---- lib.rs
r("l01-path-match", (LIB, """        self.json_object_path_regex
            .as_ref()
            .map(|object_regex| {
                // Ensure we match from the beginning of the string
                let re = format!(r"\\A(?:{})", object_regex);
                let json_object_path_re = Regex::new(&re).unwrap();
                json_object_path_re.is_match(fqn)
            })
            .unwrap_or(false)
""", """        match &self.json_object_path_regex {
            Some(object_regex) => Regex::new(&format!(r"\\A(?:{object_regex})"))
                .unwrap()
                .is_match(fqn),
            None => false,
        }
"""))
r("l02-path-caret", (LIB, """format!(r"\\A(?:{})", object_regex)""", """format!(r"^(?:{})", object_regex)"""))
r("l03-path-map-or", (LIB, """            .as_ref()
            .map(|object_regex| {""", """            .as_deref()
            .map_or(false, |object_regex| {"""), (LIB, """                json_object_path_re.is_match(fqn)
            })
            .unwrap_or(false)
""", """                json_object_path_re.is_match(fqn)
            })
"""))
r("l04-into-ast", (LIB, """    let jsonschema: jsonschema::Tag = match serde_json::from_value(json!(input)) {
        Ok(tag) => tag,
        Err(e) => panic!("{:#?}", e),
    };
""", """    let jsonschema: jsonschema::Tag =
        serde_json::from_value(input.clone()).unwrap_or_else(|e| panic!("{:#?}", e));
"""))
r("l05-metadata", (LIB, """    let metadata = jsonschema
        .extra
        .get("mozPipelineMetadata")
        .and_then(|obj| obj["json_object_path_regex"].as_str());
    if let Some(json_object_path_regex) = metadata {
        context.json_object_path_regex = Some(json_object_path_regex.to_string());
    }
""", """    if let Some(metadata) = jsonschema.extra.get("mozPipelineMetadata") {
        if let Value::String(pattern) = &metadata["json_object_path_regex"] {
            context.json_object_path_regex = Some(pattern.clone());
        }
    }
"""))
r("l06-metadata-get", (LIB, """        .and_then(|obj| obj["json_object_path_regex"].as_str());
""", """        .and_then(|obj| obj.get("json_object_path_regex"))
        .and_then(Value::as_str);
"""))
r("l07-convert-helper", (LIB, """pub fn convert_avro(input: &Value, mut context: Context) -> Value {
    let ast = into_ast(input, &mut context);
    let avro = avro::Type::translate_from(ast, &context).unwrap();
    json!(avro)
}
""", """pub fn convert_avro(input: &Value, context: Context) -> Value {
    let mut context = context;
    let tree = into_ast(input, &mut context);
    let schema = match avro::Type::translate_from(tree, &context) {
        Ok(schema) => schema,
        Err(reason) => panic!("{}", reason),
    };
    serde_json::to_value(&schema).unwrap()
}
"""))
r("l08-path-guard", (LIB, """        self.json_object_path_regex
            .as_ref()
            .map(|object_regex| {
                // Ensure we match from the beginning of the string
                let re = format!(r"\\A(?:{})", object_regex);
                let json_object_path_re = Regex::new(&re).unwrap();
                json_object_path_re.is_match(fqn)
            })
            .unwrap_or(false)
""", """        let object_regex = match self.json_object_path_regex.as_ref() {
            None => return false,
            Some(object_regex) => object_regex,
        };
        let mut re = String::from(r"\\A(?:");
        re.push_str(object_regex);
        re.push(')');
        let json_object_path_re = Regex::new(&re).unwrap();
        json_object_path_re.is_match(fqn)
"""))
r("l09-translate-generic", (LIB, """    ast::Tag::translate_from(jsonschema, context).unwrap()
}
""", """    match ast::Tag::translate_from(jsonschema, context) {
        Ok(tag) => tag,
        Err(reason) => panic!("{}", reason),
    }
}
"""))
r("l10-translate-into", (LIB, "    let avro = avro::Type::translate_from(ast, &context).unwrap();", "    let avro: avro::Type = traits::TranslateInto::translate_into(ast, &context).unwrap();"))

# ---- main.rs
r("m01-from-impl", (MAIN, """        resolve_method: match args.resolve {
            Resolve::Cast => ResolveMethod::Cast,
            Resolve::Panic => ResolveMethod::Panic,
            Resolve::Drop => ResolveMethod::Drop,
        },
""", """        resolve_method: args.resolve.into(),
"""), (MAIN, """#[derive(Parser, Debug)]
#[command""", """impl From<Resolve> for ResolveMethod {
    fn from(resolve: Resolve) -> Self {
        match resolve {
            Resolve::Cast => ResolveMethod::Cast,
            Resolve::Panic => ResolveMethod::Panic,
            Resolve::Drop => ResolveMethod::Drop,
        }
    }
}

#[derive(Parser, Debug)]
#[command"""))
r("m02-reader-if", (MAIN, """    let reader: Box<dyn io::Read> = match &args.file {
        Some(path) if path == "-" => Box::new(io::stdin()),
        Some(path) => {
            let file = File::open(path).unwrap();
            Box::new(BufReader::new(file))
        }
        None => Box::new(io::stdin()),
    };
""", """    let path = args.file.as_deref().unwrap_or("-");
    let reader: Box<dyn io::Read> = if path == "-" {
        Box::new(io::stdin())
    } else {
        Box::new(BufReader::new(File::open(path).unwrap()))
    };
"""))
r("m03-helper-open", (MAIN, """    let reader: Box<dyn io::Read> = match &args.file {
        Some(path) if path == "-" => Box::new(io::stdin()),
        Some(path) => {
            let file = File::open(path).unwrap();
            Box::new(BufReader::new(file))
        }
        None => Box::new(io::stdin()),
    };
    let data: Value = serde_json::from_reader(reader).unwrap();
""", """    let data = read_schema(args.file.as_deref());
"""), (MAIN, """fn main() {
""", """fn read_schema(path: Option<&str>) -> Value {
    let reader: Box<dyn io::Read> = match path {
        None | Some("-") => Box::new(io::stdin()),
        Some(path) => Box::new(BufReader::new(File::open(path).unwrap())),
    };
    serde_json::from_reader(reader).unwrap()
}

fn main() {
"""))
r("m04-default-context", (MAIN, """        allow_maps_without_value: args.allow_maps_without_value,
        json_object_path_regex: None,
    };
""", """        allow_maps_without_value: args.allow_maps_without_value,
        ..Default::default()
    };
"""))
r("m05-convert-fn", (MAIN, """    let output = match args.typ {
        Type::Avro => jst::convert_avro(&data, context),
        Type::Bigquery => jst::convert_bigquery(&data, context),
    };
""", """    let convert: fn(&Value, Context) -> Value = match args.typ {
        Type::Avro => jst::convert_avro,
        Type::Bigquery => jst::convert_bigquery,
    };
    let output = convert(&data, context);
"""))
r("m06-writer", (MAIN, """    let pretty = serde_json::to_string_pretty(&output).unwrap();
    println!("{}", pretty);
""", """    let pretty = serde_json::to_string_pretty(&output).expect("the output is JSON");
    println!("{pretty}");
"""))
r("m07-destructure", (MAIN, """    let context = Context {
        resolve_method: match args.resolve {""", """    let resolve = args.resolve;
    let typ = args.typ;
    let context = Context {
        resolve_method: match resolve {"""), (MAIN, "    let output = match args.typ {", "    let output = match typ {"))
r("m08-read-to-string", (MAIN, """    let data: Value = serde_json::from_reader(reader).unwrap();
""", """    let data = serde_json::from_reader::<_, Value>(reader).expect("invalid JSON");
"""))
r("z01-eof-comments", *[(f, "$EOF", "\n// end of file\n") for f in (AST, AVRO, BQ, JS, LIB, MAIN, CASE)])
r("z02-noops", (AST, "    pub fn collapse(&mut self) {\n        match", "    pub fn collapse(&mut self) {\n        let _ = 0;\n        match"), (AVRO, "        let mut tag = tag;\n", "        let mut tag = tag;\n        let _ = ();\n"), (BQ, "        let mut tag = tag;\n", "        let mut tag = tag;\n        {}\n"),
  (JS, "    fn get_type(&self) -> Type {\n", "    fn get_type(&self) -> Type {\n        let _unused = 1 + 1;\n"), (MAIN, "    env_logger::init();\n", "    env_logger::init();\n    let _ = false;\n"), (LIB, "    let ast = into_ast(input, &mut context);\n    let avro", "    let _ = std::convert::identity(0);\n    let ast = into_ast(input, &mut context);\n    let avro"))
