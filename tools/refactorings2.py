"""More edits that keep the behaviour, written in other styles (tools/variants.py)."""
REFACTORINGS = []
AST, AVRO, BQ, JS, LIB, MAIN, CASE = ("src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs", "src/main.rs", "src/casing.rs")


def r(id, *edits):
    REFACTORINGS.append((id, list(edits)))


RE = """        let re = Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap();
        let renamed = Tag::normalize_numeric_prefix(string.replace(['.', '-'], "_"));
        if re.is_match(&renamed) {
            Some(renamed)
        } else {
            None
        }
"""
r("c01-name-scan", (AST, RE, """        let renamed = Tag::normalize_numeric_prefix(string.replace(['.', '-'], "_"));
        let starts_well = renamed.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_');
        let is_valid = starts_well && renamed.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        is_valid.then_some(renamed)
"""), (AST, "use regex::Regex;\n", ""))
r("c02-name-scan-next", (AST, RE, """        let renamed = Tag::normalize_numeric_prefix(string.replace(['.', '-'], "_"));
        let mut chars = renamed.chars();
        let is_valid = match chars.next() {
            Some('a'..='z' | 'A'..='Z' | '_') => {
                chars.all(|c| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'))
            }
            _ => false,
        };
        if is_valid {
            Some(renamed)
        } else {
            None
        }
"""), (AST, "use regex::Regex;\n", ""))
r("c03-name-map-chars", (AST, RE, """        let re = Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap();
        let replaced: String = string
            .chars()
            .map(|c| match c {
                '.' | '-' => '_',
                c => c,
            })
            .collect();
        let renamed = Tag::normalize_numeric_prefix(replaced);
        Some(renamed).filter(|name| re.is_match(name))
"""))
r("c04-name-const-pattern", (AST, RE, """        let re = Regex::new(COLUMN_PATTERN).expect("the pattern is valid");
        let renamed = Tag::normalize_numeric_prefix(string.replace(&['.', '-'][..], "_"));
        match re.is_match(&renamed) {
            true => Some(renamed),
            false => None,
        }
"""), (AST, "#[derive(Serialize, Deserialize, Debug, Copy, Clone)]\n", "const COLUMN_PATTERN: &str = r\"^[a-zA-Z_][a-zA-Z0-9_]*$\";\n\n#[derive(Serialize, Deserialize, Debug, Copy, Clone)]\n"))
r("c05-keys-btreeset", (AST, """            let mut keys: Vec<String> = fields.keys().cloned().collect();
            keys.sort();

""", """            let keys: std::collections::BTreeSet<String> = fields.keys().cloned().collect();

"""))
r("c06-keys-refs", (AST, """            let mut keys: Vec<String> = fields.keys().cloned().collect();
            keys.sort();
""", """            let mut keys: Vec<String> = Vec::with_capacity(fields.len());
            for name in fields.keys() {
                keys.push(name.clone());
            }
            keys.sort_unstable();
"""))
r("c07-normalized-fn", (AST, """                let normalized = Tag::normalize_name_bigquery(&key).and_then(|renamed| {
                    if normalize_case {
                        Tag::normalize_name_case(&renamed)
                    } else {
                        Some(renamed)
                    }
                });
                if let Some(renamed) = normalized {""", """                if let Some(renamed) = Tag::column_name(&key, normalize_case) {"""),
  (AST, """            object.required = match &object.required {
                Some(required) => {
                    let renamed: HashSet<String> = required
                        .iter()
                        .map(String::as_str)
                        .filter_map(Tag::normalize_name_bigquery)
                        .collect();
                    if normalize_case {
                        Some(
                            renamed
                                .iter()
                                .filter_map(|s| Tag::normalize_name_case(s))
                                .collect(),
                        )
                    } else {
                        Some(renamed)
                    }
                }
                None => None,
            };
""", """            object.required = object.required.as_ref().map(|required| {
                required
                    .iter()
                    .filter_map(|name| Tag::column_name(name, normalize_case))
                    .collect()
            });
"""), (AST, """    /// Fix properties of an object to adhere""", """    /// The name of the column a property is stored in, if it can have one.
    fn column_name(property: &str, normalize_case: bool) -> Option<String> {
        let renamed = Tag::normalize_name_bigquery(property)?;
        if normalize_case {
            Tag::normalize_name_case(&renamed)
        } else {
            Some(renamed)
        }
    }

    /// Fix properties of an object to adhere"""))
r("c08-required-loop", (AST, """            object.required = match &object.required {
                Some(required) => {
                    let renamed: HashSet<String> = required
                        .iter()
                        .map(String::as_str)
                        .filter_map(Tag::normalize_name_bigquery)
                        .collect();
                    if normalize_case {
                        Some(
                            renamed
                                .iter()
                                .filter_map(|s| Tag::normalize_name_case(s))
                                .collect(),
                        )
                    } else {
                        Some(renamed)
                    }
                }
                None => None,
            };
""", """            if let Some(required) = object.required.as_mut() {
                let mut renamed = HashSet::new();
                for name in required.drain() {
                    let Some(name) = Tag::normalize_name_bigquery(&name) else {
                        continue;
                    };
                    if !normalize_case {
                        renamed.insert(name);
                    } else if let Some(name) = Tag::normalize_name_case(&name) {
                        renamed.insert(name);
                    }
                }
                *required = renamed;
            }
"""))
r("c09-properties-early-return", (AST, """        if let Type::Object(ref mut object) = self.data_type {
            let fields = &mut object.fields;
""", """        let object = match &mut self.data_type {
            Type::Object(object) => object,
            _ => return,
        };
        {
            let fields = &mut object.fields;
"""))
r("c10-properties-split", (AST, """            for key in keys {
                // Replace property names with the normalized property name
                let normalized = Tag::normalize_name_bigquery(&key).and_then(|renamed| {
                    if normalize_case {
                        Tag::normalize_name_case(&renamed)
                    } else {
                        Some(renamed)
                    }
                });
                if let Some(renamed) = normalized {
                    if renamed.as_str() != key.as_str() {
                        warn!("{} replaced with {}", key, renamed);
                        fields.insert(renamed, fields[&key].clone());
                        fields.remove(&key);
                    }
                } else {
                    warn!("Omitting {} - not a valid property name", key);
                    fields.remove(&key);
                }
            }
""", """            for key in keys {
                Tag::rename_property(fields, key, normalize_case);
            }
"""), (AST, """    /// Fix properties of an object to adhere""", """    fn rename_property(
        fields: &mut HashMap<String, Box<Tag>>,
        key: String,
        normalize_case: bool,
    ) {
        let mut normalized = Tag::normalize_name_bigquery(&key);
        if normalize_case {
            normalized = normalized.and_then(|name| Tag::normalize_name_case(&name));
        }
        match normalized {
            None => {
                warn!("Omitting {} - not a valid property name", key);
                fields.remove(&key);
            }
            Some(renamed) if renamed != key => {
                warn!("{} replaced with {}", key, renamed);
                if let Some(value) = fields.remove(&key) {
                    fields.insert(renamed, value);
                }
            }
            Some(_) => {}
        }
    }

    /// Fix properties of an object to adhere"""))
r("c11-union-partition", (AST, """        let is_null = items.iter().any(Tag::is_null);

        if items.is_empty() {""", """        let is_null = items.iter().filter(|item| item.is_null()).count() > 0;

        if items.is_empty() {"""), (AST, """        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();
""", """        let (_, items): (Vec<Tag>, Vec<Tag>) = items.into_iter().partition(Tag::is_null);
"""))
r("c12-union-map-collapse", (AST, """        let mut items = self.items.clone();
        items.iter_mut().for_each(Tag::collapse);
""", """        let items: Vec<Tag> = self
            .items
            .iter()
            .cloned()
            .map(|mut item| {
                item.collapse();
                item
            })
            .collect();
"""))
r("c13-union-nullable-fold", (AST, """        let nullable = is_null || items.iter().any(|tag| tag.nullable);
""", """        let nullable = items.iter().fold(is_null, |acc, tag| acc || tag.nullable);
"""))
r("c14-union-early-null", (AST, """        // after collapsing nulls in the base case""", """        if items.is_empty() {
            return Tag::new(Type::Null, None, true, None, None);
        }

        // after collapsing nulls in the base case"""))
r("c15-union-atom-eq", (AST, """                        let atom = match (left, right) {
                            (Atom::Boolean, Atom::Boolean) => Atom::Boolean,
                            (Atom::Integer, Atom::Integer) => Atom::Integer,
                            (Atom::Number, Atom::Number)
                            | (Atom::Integer, Atom::Number)
                            | (Atom::Number, Atom::Integer) => Atom::Number,
                            (Atom::String, Atom::String) => Atom::String,
                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                            (lhs, rhs) => {
                                trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                Atom::Json
                            }
                        };
                        Type::Atom(atom)
""", """                        Type::Atom(left.merge(*right))
"""), (AST, """#[derive(Serialize, Deserialize, Debug, Copy, Clone)]
#[serde(rename_all = "lowercase")]
pub enum Atom {
    Boolean,
    Integer,
    Number,
    String,
    Datetime,
    Json,
    Bytes,
}
""", """#[derive(Serialize, Deserialize, Debug, Copy, Clone, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Atom {
    Boolean,
    Integer,
    Number,
    String,
    Datetime,
    Json,
    Bytes,
}

impl Atom {
    /// The narrowest type that holds the values of both.
    fn merge(self, other: Atom) -> Atom {
        if self == other {
            return self;
        }
        let numeric = |atom: Atom| atom == Atom::Integer || atom == Atom::Number;
        if numeric(self) && numeric(other) {
            Atom::Number
        } else {
            trace!("Invalid union collapse of atoms {:?} and {:?}", self, other);
            Atom::Json
        }
    }
}
"""))
OBJ = """            items
                .into_iter()
                .fold(Type::Null, |acc, x| match (&acc, &x.data_type) {
                    (Type::Null, Type::Object(object)) => Type::Object(object.clone()),
                    (Type::Object(left), Type::Object(right)) => {
                        // union each sub-property, recursively collapse, and rebuild
                        let mut union: HashMap<String, Vec<Tag>> = HashMap::new();
                        for (key, value) in &left.fields {
                            union.insert(key.to_string(), vec![*value.clone()]);
                        }
                        for (key, value) in &right.fields {
                            if let Some(vec) = union.get_mut(key) {
                                vec.push(*value.clone())
                            } else {
                                union.insert(key.to_string(), vec![*value.clone()]);
                            }
                        }
                        let result: HashMap<String, Tag> = union
                            .into_iter()
                            .map(|(k, v)| (k, Union::new(v).collapse()))
                            .collect();
                        // Recursively invalidate the tree if any of the subschemas are incompatible.
                        // Atom::Json is a catch-all value and marks inconsistent objects.
                        let is_consistent = !result
                            .iter()
                            .any(|(_, v)| matches!(v.data_type, Type::Atom(Atom::Json)));
                        if is_consistent {
                            let required: Option<HashSet<String>> =
                                match (&left.required, &right.required) {
                                    (Some(x), Some(y)) => {
                                        Some(x.intersection(y).map(ToString::to_string).collect())
                                    }
                                    _ => None,
                                };
                            Type::Object(Object::new(result, required))
                        } else {
                            trace!("Incompatible subschemas found during union collapse");
                            Type::Atom(Atom::Json)
                        }
                    }
                    _ => {
                        trace!("Inconsistent union collapse of object");
                        Type::Atom(Atom::Json)
                    }
                })
"""
r("c16-object-merge-method", (AST, OBJ, """            items
                .into_iter()
                .fold(Type::Null, |acc, x| match (&acc, &x.data_type) {
                    (Type::Null, Type::Object(object)) => Type::Object(object.clone()),
                    (Type::Object(left), Type::Object(right)) => left.merge(right),
                    _ => {
                        trace!("Inconsistent union collapse of object");
                        Type::Atom(Atom::Json)
                    }
                })
"""), (AST, """        Object { fields, required }
    }
""", """        Object { fields, required }
    }

    /// Union each sub-property, recursively collapse, and rebuild.
    fn merge(&self, other: &Object) -> Type {
        let mut union: HashMap<&str, Vec<Tag>> = HashMap::new();
        for (key, value) in self.fields.iter().chain(other.fields.iter()) {
            union.entry(key).or_default().push(Tag::clone(value));
        }
        let mut result = HashMap::new();
        for (key, alternatives) in union {
            let tag = Union::new(alternatives).collapse();
            if let Type::Atom(Atom::Json) = tag.data_type {
                trace!("Incompatible subschemas found during union collapse");
                return Type::Atom(Atom::Json);
            }
            result.insert(key.to_string(), tag);
        }
        let required = match (&self.required, &other.required) {
            (Some(x), Some(y)) => Some(x & y),
            _ => None,
        };
        Type::Object(Object::new(result, required))
    }
"""))
r("c17-object-reduce", (AST, OBJ, """            items
                .into_iter()
                .map(|item| item.data_type)
                .reduce(merge_objects)
                .unwrap_or_default()
"""), (AST, """#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "lowercase")]
#[derive(Default)]
pub enum Type {""", """fn merge_objects(left: Type, right: Type) -> Type {
    let (Type::Object(left), Type::Object(right)) = (left, right) else {
        trace!("Inconsistent union collapse of object");
        return Type::Atom(Atom::Json);
    };
    let mut fields: HashMap<String, Vec<Tag>> =
        left.fields.into_iter().map(|(key, value)| (key, vec![*value])).collect();
    for (key, value) in right.fields {
        fields.entry(key).or_insert_with(Vec::new).push(*value);
    }
    let fields: HashMap<String, Tag> = fields
        .into_iter()
        .map(|(key, tags)| (key, Union { items: tags }.collapse()))
        .collect();
    if fields.values().any(|tag| matches!(tag.data_type, Type::Atom(Atom::Json))) {
        trace!("Incompatible subschemas found during union collapse");
        return Type::Atom(Atom::Json);
    }
    let required = left
        .required
        .zip(right.required)
        .map(|(x, y)| x.into_iter().filter(|name| y.contains(name)).collect());
    Type::Object(Object::new(fields, required))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "lowercase")]
#[derive(Default)]
pub enum Type {"""))
r("c18-union-btreemap", (AST, """                        let mut union: HashMap<String, Vec<Tag>> = HashMap::new();""", """                        let mut union: std::collections::BTreeMap<String, Vec<Tag>> = Default::default();"""))
r("c19-required-and-then", (AST, """                                match (&left.required, &right.required) {
                                    (Some(x), Some(y)) => {
                                        Some(x.intersection(y).map(ToString::to_string).collect())
                                    }
                                    _ => None,
                                };
""", """                                left.required.as_ref().and_then(|x| {
                                    let y = right.required.as_ref()?;
                                    let mut both = HashSet::new();
                                    for name in x {
                                        if y.contains(name) {
                                            both.insert(name.clone());
                                        }
                                    }
                                    Some(both)
                                });
"""))
r("c20-union-items-method", (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Array(array) => *array.items.clone(),
                    _ => panic!("Invalid array found during union collapse"),
                })
                .collect();
            Type::Array(Array::new(Union::new(tags).collapse()))
""", """            let mut tags: Vec<Tag> = Vec::new();
            for item in items {
                if let Type::Array(array) = item.data_type {
                    tags.push(*array.items);
                }
            }
            let merged = Union::new(tags).collapse();
            Type::Array(Array::new(merged))
"""), (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Map(map) => *map.value.clone(),
                    _ => panic!("Invalid map found during union collapse"),
                })
                .collect();
            Type::Map(Map::new(None, Union::new(tags).collapse()))
""", """            let values = items
                .into_iter()
                .flat_map(|item| match item.data_type {
                    Type::Map(map) => Some(*map.value),
                    _ => None,
                })
                .collect();
            let value = Union::new(values).collapse();
            Type::Map(Map::new(None, value))
"""))
r("c21-visitor", (AST, """            Type::Map(map) => map.value.infer_nullability(force_nullable),
            Type::Array(array) => array.items.infer_nullability(force_nullable),
            Type::Tuple(tuple) => {
                for item in tuple.items.iter_mut() {
                    item.infer_nullability(force_nullable);
                }
            }
            Type::Union(union) => {
                for item in union.items.iter_mut() {
                    item.infer_nullability(force_nullable);
                }
            }
            _ => (),
        }
        if force_nullable {
            self.nullable = true
        }
    }
""", """            other => other.for_each_child(&mut |child| child.infer_nullability(force_nullable)),
        }
        self.nullable |= force_nullable;
    }
"""), (AST, """            Type::Map(map) => map.value.collapse(),
            Type::Array(array) => array.items.collapse(),
            Type::Tuple(tuple) => {
                for item in tuple.items.iter_mut() {
                    item.collapse()
                }
            }
            Type::Union(union) => {
                let tag = union.collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
            }
            _ => (),
        }
    }
}
""", """            Type::Union(union) => {
                let tag = union.collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
            }
            other => other.for_each_child(&mut Tag::collapse),
        }
    }
}

impl Type {
    /// Visits the items of arrays, tuples and unions and the values of maps.
    fn for_each_child(&mut self, visit: &mut dyn FnMut(&mut Tag)) {
        match self {
            Type::Map(map) => visit(&mut map.value),
            Type::Array(array) => visit(&mut array.items),
            Type::Tuple(Tuple { items }) | Type::Union(Union { items }) => {
                items.iter_mut().for_each(visit)
            }
            Type::Null | Type::Atom(_) | Type::Object(_) => {}
        }
    }
}
"""))
r("c22-boxed-children", (AST, """            Type::Object(object) => {
                for value in &mut object.fields.values_mut() {
                    value.collapse()
                }
            }
            Type::Map(map) => map.value.collapse(),
            Type::Array(array) => array.items.collapse(),
            Type::Tuple(tuple) => {
                for item in tuple.items.iter_mut() {
                    item.collapse()
                }
            }
            Type::Union(union) => {
                let tag = union.collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
            }
            _ => (),
        }
    }
}
""", """            Type::Union(union) => {
                let Tag { data_type, nullable, .. } = union.collapse();
                self.data_type = data_type;
                self.nullable |= nullable;
            }
            other => {
                for child in other.children() {
                    child.collapse();
                }
            }
        }
    }
}

impl Type {
    fn children(&mut self) -> Box<dyn Iterator<Item = &mut Tag> + '_> {
        match self {
            Type::Object(object) => Box::new(object.fields.values_mut().map(|field| &mut **field)),
            Type::Map(map) => Box::new(std::iter::once(&mut *map.value)),
            Type::Array(array) => Box::new(std::iter::once(array.items.as_mut())),
            Type::Tuple(tuple) => Box::new(tuple.items.iter_mut()),
            _ => Box::new(std::iter::empty()),
        }
    }
}
"""))
r("c23-nullability-fields-fn", (AST, """                let required = match &object.required {
                    Some(required) => required.clone(),
                    None => HashSet::new(),
                };
                for (key, value) in &mut object.fields {
                    // Infer whether the value is nullable
                    value.infer_nullability(force_nullable);
                    // A required nullable field is still nullable
                    value.nullable |= !required.contains(key);
                    // All fields are nullable if enforced
                    if force_nullable {
                        value.nullable = true;
                    }
                }
            }
""", """                let Object { fields, required } = object;
                for (key, value) in fields.iter_mut() {
                    value.infer_nullability(force_nullable);
                    let is_required = match required {
                        Some(names) => names.contains(key.as_str()),
                        None => false,
                    };
                    if force_nullable || !is_required {
                        value.nullable = true;
                    }
                }
            }
"""))
r("c24-recurse-args", (AST, """        let set_and_recurse = |tag: &mut Tag, name: &str| {
            tag.set_name(name, &namespace);
            tag.recurse_infer_name(format!("{}.{}", &namespace, name), normalize_case)
        };
""", """        let set_and_recurse = |tag: &mut Tag, name: &str| {
            let mut path = namespace.clone();
            path.push('.');
            path.push_str(name);
            tag.set_name(name, namespace.as_str());
            tag.recurse_infer_name(path, normalize_case)
        };
"""))
r("c25-recurse-children", (AST, """        match &mut self.data_type {
            Type::Object(object) => {
                for (key, value) in object.fields.iter_mut() {
                    set_and_recurse(value, key)
                }
            }
            Type::Map(map) => {
                set_and_recurse(&mut map.key, "key");
                set_and_recurse(&mut map.value, "value");
            }
            Type::Array(array) => {
                set_and_recurse(&mut array.items, "list");
            }
            Type::Union(union) => {
                for item in union.items.iter_mut() {
                    set_and_recurse(item, "__union__");
                }
            }
            Type::Tuple(tuple) => {
                for (i, item) in tuple.items.iter_mut().enumerate() {
                    let name = format!("f{}_", i);
                    set_and_recurse(item, &name);
                }
            }
            _ => (),
        }
""", """        let children: Vec<(String, &mut Tag)> = match &mut self.data_type {
            Type::Null | Type::Atom(_) => vec![],
            Type::Object(object) => object
                .fields
                .iter_mut()
                .map(|(key, value)| (key.clone(), value.as_mut()))
                .collect(),
            Type::Map(map) => vec![
                ("key".to_string(), map.key.as_mut()),
                ("value".to_string(), map.value.as_mut()),
            ],
            Type::Array(array) => vec![("list".to_string(), array.items.as_mut())],
            Type::Union(union) => union
                .items
                .iter_mut()
                .map(|item| ("__union__".to_string(), item))
                .collect(),
            Type::Tuple(tuple) => tuple
                .items
                .iter_mut()
                .enumerate()
                .map(|(i, item)| (format!("f{}_", i), item))
                .collect(),
        };
        for (name, child) in children {
            set_and_recurse(child, &name);
        }
"""))
r("c26-fqn-join", (AST, """        let name = match &self.name {
            Some(name) => name.clone(),
            None => "__unknown__".to_string(),
        };
        match &self.namespace {
            Some(ns) => format!("{}.{}", ns, name),
            None => name,
        }
""", """        let name = self.name.as_deref().unwrap_or("__unknown__");
        let mut path = String::new();
        if let Some(namespace) = &self.namespace {
            path.push_str(namespace);
            path.push('.');
        }
        path.push_str(name);
        path
"""))
r("c27-fqn-vec-join", (AST, """        let name = match &self.name {
            Some(name) => name.clone(),
            None => "__unknown__".to_string(),
        };
        match &self.namespace {
            Some(ns) => format!("{}.{}", ns, name),
            None => name,
        }
""", """        let name = self.name.as_deref().unwrap_or("__unknown__");
        let parts: Vec<&str> = self.namespace.as_deref().into_iter().chain(Some(name)).collect();
        parts.join(".")
"""))
r("c28-collapse-by-value", (AST, """    pub fn collapse(&self) -> Tag {
        // resolve the unions nested anywhere inside of the alternatives
        let mut items = self.items.clone();
""", """    pub fn collapse(self) -> Tag {
        // resolve the unions nested anywhere inside of the alternatives
        let mut items = self.items;
"""), (AST, """                let tag = union.collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
""", """                let tag = Union::new(std::mem::take(&mut union.items)).collapse();
                self.data_type = tag.data_type;
                self.nullable |= tag.nullable;
"""))
r("c29-rename-collapse", (AST, """    pub fn collapse(&self) -> Tag {""", """    pub fn resolve(&self) -> Tag {"""), (AST, """(k, Union::new(v).collapse())""", """(k, Union::new(v).resolve())"""),
  (AST, """Type::Map(Map::new(None, Union::new(tags).collapse()))""", """Type::Map(Map::new(None, Union::new(tags).resolve()))"""),
  (AST, """Type::Array(Array::new(Union::new(tags).collapse()))""", """Type::Array(Array::new(Union::new(tags).resolve()))"""), (AST, "let tag = union.collapse();", "let tag = union.resolve();"))
r("c30-name-enum", (AST, """    /// If a name starts with a number, prefix it with an underscore.
    fn normalize_numeric_prefix(name: String) -> String {
        if name.starts_with(char::is_numeric) {
            format!("_{}", name)
        } else {
            name
        }
    }
""", """    /// If a name starts with a number, prefix it with an underscore.
    fn normalize_numeric_prefix(name: String) -> String {
        let prefix = if name.starts_with(|c: char| c.is_numeric()) {
            "_"
        } else {
            ""
        };
        prefix.to_string() + &name
    }
"""))
r("c31-case-match", (AST, """        let renamed = Tag::normalize_numeric_prefix(to_snake_case(name));
        if renamed.is_empty() {
            None
        } else {
            Some(renamed)
        }
""", """        match to_snake_case(name) {
            renamed if renamed.is_empty() => None,
            renamed => Some(Tag::normalize_numeric_prefix(renamed)),
        }
"""))
r("c32-infer-name-path", (AST, """        let namespace = {
            let name = match &self.name {
                Some(name) => name,
                None => "",
            };
            match &self.namespace {
                Some(ns) => format!("{}.{}", ns, name),
                None => name.to_string(),
            }
        };
        self.recurse_infer_name(namespace, normalize_case);
""", """        let name = self.name.clone().unwrap_or_default();
        let path = match self.namespace.as_ref() {
            None => name,
            Some(namespace) => [namespace.as_str(), name.as_str()].join("."),
        };
        self.recurse_infer_name(path, normalize_case);
"""))
r("c33-translate-chain", (AST, """        let mut tag = tag.type_into_ast(context)?;
        tag.infer_name(context.normalize_case);
        tag.infer_nullability(context.force_nullable);
        tag.is_root = true;
        Ok(tag)
""", """        tag.type_into_ast(context).map(|mut tag| {
            tag.infer_name(context.normalize_case);
            tag.infer_nullability(context.force_nullable);
            Tag { is_root: true, ..tag }
        })
"""))

# ---- avro.rs
DEFAULTS = "let default = if v.nullable { Some(json!(null)) } else { None };"
r("w01-record-new", (AVRO, """                    let record = Record {
                        common: CommonAttributes {
                            // This is not a safe assumption
                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
                            namespace: tag.namespace.clone(),
                            ..Default::default()
                        },
                        fields,
                    };
                    if record.common.name == "__UNNAMED__" {
                        warn!("{} - Unnamed field", tag.fully_qualified_name());
                    }
                    Type::Complex(Complex::Record(record))
""", """                    Type::Complex(Complex::Record(Record::new(&tag, fields)))
"""), (AVRO, """                let record = Record {
                    common: CommonAttributes {
                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
                        namespace: tag.namespace.clone(),
                        ..Default::default()
                    },
                    fields,
                };
                if record.common.name == "__UNNAMED__" {
                    warn!("{} - Unnamed field", tag.fully_qualified_name());
                }
                Type::Complex(Complex::Record(record))
""", """                Type::Complex(Complex::Record(Record::new(&tag, fields)))
"""), (AVRO, """                                items: Box::new(Type::Complex(Complex::Record(Record {
                                    common: CommonAttributes {
                                        name: tag
                                            .name
                                            .clone()
                                            .unwrap_or_else(|| "__UNNAMED__".into()),
                                        namespace: tag.namespace.clone(),
                                        ..Default::default()
                                    },
                                    fields: vec![Field {
                                        name: "list".into(),
                                        data_type,
                                        default: if array.items.nullable {
                                            Some(json!(null))
                                        } else {
                                            None
                                        },
                                        ..Default::default()
                                    }],
                                }))),
""", """                                items: Box::new(Type::Complex(Complex::Record(Record::new(
                                    &tag,
                                    vec![Field::new("list".into(), data_type, &array.items)],
                                )))),
"""), (AVRO, """#[derive(Serialize, Deserialize, Debug)]
pub struct Enum {""", """impl Record {
    fn new(tag: &ast::Tag, fields: Vec<Field>) -> Self {
        let name = match &tag.name {
            Some(name) => name.clone(),
            None => {
                warn!("{} - Unnamed field", tag.fully_qualified_name());
                "__UNNAMED__".to_string()
            }
        };
        let common = CommonAttributes {
            name,
            namespace: tag.namespace.clone(),
            doc: None,
            aliases: None,
        };
        Record { common, fields }
    }
}

impl Field {
    fn new(name: String, data_type: Type, tag: &ast::Tag) -> Self {
        Field {
            name,
            doc: None,
            data_type,
            default: tag.nullable.then_some(Value::Null),
        }
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Enum {"""))
r("w02-flat-map", (AVRO, """                        .map(|(k, v)| {
                            let default = if v.nullable { Some(json!(null)) } else { None };
                            (
                                k.to_string(),
                                Type::translate_from(*v.clone(), context),
                                default,
                            )
                        })
                        .filter(|(_, v, _)| v.is_ok())
                        .map(|(name, data_type, default)| Field {
                            name,
                            data_type: data_type.unwrap(),
                            default,
                            ..Default::default()
                        })
                        .collect()
""", """                        .filter_map(|(name, tag)| {
                            let data_type = Type::translate_from(ast::Tag::clone(tag), context).ok()?;
                            Some(Field {
                                name: name.clone(),
                                doc: None,
                                data_type,
                                default: tag.nullable.then(|| Value::Null),
                            })
                        })
                        .collect()
"""))
r("w03-tuple-loop", (AVRO, """                let fields = tuple
                    .items
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let default = if v.nullable { Some(json!(null)) } else { None };
                        (
                            format!("f{}_", i),
                            Type::translate_from(v.clone(), context),
                            default,
                        )
                    })
                    .filter(|(_, v, _)| v.is_ok())
                    .map(|(name, data_type, default)| Field {
                        name,
                        data_type: data_type.unwrap(),
                        default,
                        ..Default::default()
                    })
                    .collect();
""", """                let mut fields = Vec::with_capacity(tuple.items.len());
                for (position, item) in (0..).zip(&tuple.items) {
                    if let Ok(data_type) = Type::translate_from(item.to_owned(), context) {
                        let mut field = Field {
                            name: format!("f{position}_"),
                            data_type,
                            ..Default::default()
                        };
                        if item.nullable {
                            field.default = Some(Value::Null);
                        }
                        fields.push(field);
                    }
                }
"""))
r("w04-let-else", (AVRO, """                match Type::translate_from(*array.items.clone(), context) {
                    Ok(data_type) => {
                        if child_is_array {""", """                let Ok(data_type) = Type::translate_from(*array.items.clone(), context) else {
                    return Err(fmt_reason("untyped array"));
                };
                {
                    {
                        if child_is_array {"""), (AVRO, """                    Err(_) => return Err(fmt_reason("untyped array")),
                }
""", """                }
"""))
r("w05-items-first", (AVRO, """                        if child_is_array {
                            Type::Complex(Complex::Array(Array {
                                items: Box::new(Type::Complex(Complex::Record(Record {
                                    common: CommonAttributes {
                                        name: tag
                                            .name
                                            .clone()
                                            .unwrap_or_else(|| "__UNNAMED__".into()),
                                        namespace: tag.namespace.clone(),
                                        ..Default::default()
                                    },
                                    fields: vec![Field {
                                        name: "list".into(),
                                        data_type,
                                        default: if array.items.nullable {
                                            Some(json!(null))
                                        } else {
                                            None
                                        },
                                        ..Default::default()
                                    }],
                                }))),
                            }))
                        } else {
                            Type::Complex(Complex::Array(Array {
                                items: Box::new(data_type),
                            }))
                        }
""", """                        let items = if array.items.is_array() {
                            let list = Field {
                                name: "list".into(),
                                default: Some(json!(null)).filter(|_| array.items.nullable),
                                data_type,
                                ..Default::default()
                            };
                            let common = CommonAttributes {
                                name: tag.name.clone().unwrap_or("__UNNAMED__".to_string()),
                                namespace: tag.namespace.clone(),
                                ..Default::default()
                            };
                            Type::Complex(Complex::Record(Record {
                                common,
                                fields: vec![list],
                            }))
                        } else {
                            data_type
                        };
                        Type::Complex(Complex::Array(Array {
                            items: Box::new(items),
                        }))
"""), (AVRO, """                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));
""", ""))
r("w06-from-atom", (AVRO, """            ast::Type::Atom(atom) => Type::Primitive(match atom {
                ast::Atom::Boolean => Primitive::Boolean,
                ast::Atom::Integer => Primitive::Long,
                ast::Atom::Number => Primitive::Double,
                ast::Atom::String => Primitive::String,
                ast::Atom::Datetime => Primitive::String,
                ast::Atom::Bytes => Primitive::Bytes,
                ast::Atom::Json => match handle_error("json atom") {
                    Ok(_) => Primitive::String,
                    Err(reason) => return Err(reason),
                },
            }),
""", """            ast::Type::Atom(ast::Atom::Json) => handle_error("json atom")?,
            ast::Type::Atom(atom) => Type::Primitive(Primitive::from(*atom)),
"""), (AVRO, """#[derive(Serialize, Deserialize, Debug, Default)]
struct CommonAttributes {""", """impl From<ast::Atom> for Primitive {
    fn from(atom: ast::Atom) -> Self {
        match atom {
            ast::Atom::Boolean => Primitive::Boolean,
            ast::Atom::Integer => Primitive::Long,
            ast::Atom::Number => Primitive::Double,
            ast::Atom::Bytes => Primitive::Bytes,
            ast::Atom::String | ast::Atom::Datetime => Primitive::String,
            ast::Atom::Json => unreachable!("handled by the caller"),
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
struct CommonAttributes {"""))
r("w07-fail-fn", (AVRO, """        let fmt_reason =
            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };
        let handle_error = |reason: &str| -> Result<Type, Self::Error> {
            let message = fmt_reason(reason);
            match context.resolve_method {
                ResolveMethod::Cast => {
                    warn!("{}", message);
                    Ok(Type::Primitive(Primitive::String))
                }
                ResolveMethod::Drop => Err(message),
                ResolveMethod::Panic => panic!("{}", message),
            }
        };
""", """        let fmt_reason = |reason: &str| -> String { explain(&tag, reason) };
        let handle_error = |reason: &str| unsupported(&tag, reason, context.resolve_method);
"""), (AVRO, """impl TranslateFrom<ast::Tag> for Type {""", """fn explain(tag: &ast::Tag, reason: &str) -> String {
    [tag.fully_qualified_name(), reason.to_string()].join(" - ")
}

fn unsupported(tag: &ast::Tag, reason: &str, method: ResolveMethod) -> Result<Type, String> {
    let message = explain(tag, reason);
    if let ResolveMethod::Panic = method {
        panic!("{}", message);
    }
    if let ResolveMethod::Drop = method {
        return Err(message);
    }
    warn!("{}", message);
    Ok(Type::Primitive(Primitive::String))
}

impl TranslateFrom<ast::Tag> for Type {"""))
r("w08-nullable-match", (AVRO, """        if tag.nullable && !tag.is_null() {
            Ok(Type::Union(vec![
                Type::Primitive(Primitive::Null),
                data_type,
            ]))
        } else {
            Ok(data_type)
        }
""", """        let nullable = match tag.data_type {
            ast::Type::Null => false,
            _ => tag.nullable,
        };
        if !nullable {
            return Ok(data_type);
        }
        let mut alternatives = vec![Type::Primitive(Primitive::Null)];
        alternatives.push(data_type);
        Ok(Type::Union(alternatives))
"""))
r("w09-fields-sort-refs", (AVRO, """                    fields.sort_by_key(|v| v.name.to_string());
""", """                    fields.sort_by(|left, right| left.name.as_str().cmp(right.name.as_str()));
"""))
r("w10-fields-before", (AVRO, """                let mut fields: Vec<Field> = if object.fields.is_empty() {
                    Vec::new()
                } else {
                    object
                        .fields
                        .iter()
""", """                let mut entries: Vec<_> = object.fields.iter().collect();
                entries.sort_by_key(|(name, _)| name.as_str());
                let fields: Vec<Field> = {
                    entries
                        .into_iter()
"""), (AVRO, """                    fields.sort_by_key(|v| v.name.to_string());
                    let record""", """                    let record"""))
r("w11-map-ok-or", (AVRO, """            ast::Type::Map(map) => match Type::translate_from(*map.value.clone(), context) {
                Ok(data_type) => Type::Complex(Complex::Map(Map {
                    values: Box::new(data_type),
                })),
                // Err is only reachable when context.resolve_method is Drop
                Err(_) => {
                    return if context.allow_maps_without_value {
                        Err(fmt_reason("map value cannot be dropped in avro"))
                    } else {
                        Err(fmt_reason("untyped map value"))
                    }
                }
            },
""", """            ast::Type::Map(map) => {
                let values = Type::translate_from((*map.value).clone(), context)
                    .ok()
                    .map(Box::new)
                    .ok_or_else(|| {
                        fmt_reason(match context.allow_maps_without_value {
                            true => "map value cannot be dropped in avro",
                            false => "untyped map value",
                        })
                    })?;
                Type::Complex(Complex::Map(Map { values }))
            }
"""))
r("w12-root-method", (AVRO, """        let mut tag = tag;
        if tag.is_root {
            // Name inference is run only from the root for the proper
            // construction of the namespace. Fully qualified names require a
            // top-down approach.
            tag.collapse();
            tag.name = Some("root".into());
            tag.infer_name(context.normalize_case);
        }
        tag.infer_nullability(context.force_nullable);
""", """        let tag = prepare(tag, context);
"""), (AVRO, """impl TranslateFrom<ast::Tag> for Type {""", """/// Name inference is run only from the root for the proper construction of the namespace.
fn prepare(mut tag: ast::Tag, context: &Context) -> ast::Tag {
    let Context {
        normalize_case,
        force_nullable,
        ..
    } = *context;
    if tag.is_root {
        tag.collapse();
        tag.name = Some(String::from("root"));
        tag.infer_name(normalize_case);
    }
    tag.infer_nullability(force_nullable);
    tag
}

impl TranslateFrom<ast::Tag> for Type {"""))
r("w13-inherent", (AVRO, """impl TranslateFrom<ast::Tag> for Type {
    type Error = String;

    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
        let mut tag = tag;
""", """impl TranslateFrom<ast::Tag> for Type {
    type Error = String;

    fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
        Type::from_tag(tag, context)
    }
}

impl Type {
    fn from_tag(tag: ast::Tag, context: &Context) -> Result<Self, String> {
        let mut tag = tag;
"""), (AVRO, "let handle_error = |reason: &str| -> Result<Type, Self::Error> {", "let handle_error = |reason: &str| -> Result<Type, String> {"))
r("w14-eager-path", (AVRO, """        let fmt_reason =
            |reason: &str| -> String { format!("{} - {}", tag.fully_qualified_name(), reason) };
""", """        let path = tag.fully_qualified_name();
        let fmt_reason = |reason: &str| -> String { format!("{path} - {reason}") };
"""))
r("w15-empty-first", (AVRO, """                let mut fields: Vec<Field> = if object.fields.is_empty() {
                    Vec::new()
                } else {
                    object
                        .fields
                        .iter()
""", """                let mut fields: Vec<Field> = {
                    object
                        .fields
                        .iter()
"""))
r("w16-field-type-methods", (AVRO, """            ast::Type::Object(object) => {
                let mut fields: Vec<Field> = if object.fields.is_empty() {
                    Vec::new()
                } else {
                    object
                        .fields
                        .iter()
                        .map(|(k, v)| {
                            let default = if v.nullable { Some(json!(null)) } else { None };
                            (
                                k.to_string(),
                                Type::translate_from(*v.clone(), context),
                                default,
                            )
                        })
                        .filter(|(_, v, _)| v.is_ok())
                        .map(|(name, data_type, default)| Field {
                            name,
                            data_type: data_type.unwrap(),
                            default,
                            ..Default::default()
                        })
                        .collect()
                };
""", """            ast::Type::Object(object) => {
                let named = object.fields.iter().map(|(name, tag)| (name.clone(), tag.as_ref()));
                let mut fields = Field::list(named, context);
"""), (AVRO, """                let fields = tuple
                    .items
                    .iter()
                    .enumerate()
                    .map(|(i, v)| {
                        let default = if v.nullable { Some(json!(null)) } else { None };
                        (
                            format!("f{}_", i),
                            Type::translate_from(v.clone(), context),
                            default,
                        )
                    })
                    .filter(|(_, v, _)| v.is_ok())
                    .map(|(name, data_type, default)| Field {
                        name,
                        data_type: data_type.unwrap(),
                        default,
                        ..Default::default()
                    })
                    .collect();
""", """                let named = tuple.items.iter().enumerate().map(|(i, tag)| (format!("f{}_", i), tag));
                let fields = Field::list(named, context);
"""), (AVRO, """#[derive(Serialize, Deserialize, Debug)]
pub struct Enum {""", """impl Field {
    /// The fields that can be represented.
    fn list<'a>(
        tags: impl Iterator<Item = (String, &'a ast::Tag)>,
        context: &Context,
    ) -> Vec<Field> {
        let mut fields = vec![];
        for (name, tag) in tags {
            match Type::translate_from(tag.clone(), context) {
                Err(reason) => debug!("dropped {}: {}", name, reason),
                Ok(data_type) => fields.push(Field {
                    name,
                    doc: None,
                    data_type,
                    default: if tag.nullable { Some(Value::Null) } else { None },
                }),
            }
        }
        fields
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Enum {"""))

# ---- bigquery.rs
r("x01-record-btreemap", (BQ, """    #[serde(with = "fields_as_vec")]
    fields: HashMap<String, Box<Tag>>,
}""", """    #[serde(with = "fields_as_vec")]
    fields: BTreeMap<String, Box<Tag>>,
}"""), (BQ, """use std::collections::HashMap;

const""", """use std::collections::BTreeMap;

const"""), (BQ, """                let fields: HashMap<String, Box<Tag>> = if object.fields.is_empty() {
                    HashMap::new()""", """                let fields: BTreeMap<String, Box<Tag>> = if object.fields.is_empty() {
                    BTreeMap::new()"""), (BQ, "let named_fields: HashMap<String, Box<Tag>> = fields?", "let named_fields: BTreeMap<String, Box<Tag>> = fields?"),
  (BQ, """fields: hashmap! {"list".into() => Box::new(sub_tag)},""", """fields: btreemap! {"list".into() => Box::new(sub_tag)},"""),
  (BQ, """                let fields: HashMap<String, Box<Tag>> =
                    vec![""", """                let fields: BTreeMap<String, Box<Tag>> =
                    vec!["""),
  (BQ, """                let mut vec: Vec<_> = record.fields.into_iter().collect();
                vec.sort_by_key(|(key, _)| key.to_string());
                let columns = vec.into_iter().map(|(_, v)| *v).collect();
""", """                let columns = record.fields.into_values().map(|column| *column).collect();
"""), (BQ, """    pub fn serialize<S>(map: &HashMap<String, Box<Tag>>, serializer: S)""", """    pub fn serialize<S>(map: &BTreeMap<String, Box<Tag>>, serializer: S)"""),
  (BQ, """        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();
        vec.sort_by_key(|(k, _)| k.to_string());

        for (_, element) in vec {
            seq.serialize_element(element)?;
        }
""", """        for element in map.values() {
            seq.serialize_element(element)?;
        }
"""), (BQ, "-> Result<HashMap<String, Box<Tag>>, D::Error>", "-> Result<BTreeMap<String, Box<Tag>>, D::Error>"), (BQ, "let map = HashMap::<String, Box<Tag>>::from_iter", "let map = BTreeMap::<String, Box<Tag>>::from_iter"),
  (BQ, """    use std::collections::HashMap;
    use std::iter""", """    use std::collections::BTreeMap;
    use std::iter"""))
r("x02-mode-helper-method", (BQ, """        let mode = if tag.is_array() || tag.is_map() {
            Mode::Repeated
        } else if tag.is_null() || tag.nullable {
            Mode::Nullable
        } else {
            Mode::Required
        };
""", """        let mode = match (&tag.data_type, tag.nullable) {
            (ast::Type::Array(_) | ast::Type::Map(_), _) => Mode::Repeated,
            (ast::Type::Null, _) | (_, true) => Mode::Nullable,
            (_, false) => Mode::Required,
        };
"""))
r("x03-description-iter", (BQ, """        let description = match tag.title {
            Some(title) => match tag.description {
                Some(description) => Some(format!("{} - {}", title, description)),
                None => Some(title),
            },
            None => tag.description,
        };
""", """        let parts: Vec<String> = tag.title.into_iter().chain(tag.description).collect();
        let description = if parts.is_empty() {
            None
        } else {
            Some(parts.join(" - "))
        };
"""))
r("x04-description-let", (BQ, """        let description = match tag.title {
            Some(title) => match tag.description {
                Some(description) => Some(format!("{} - {}", title, description)),
                None => Some(title),
            },
            None => tag.description,
        };
""", """        let mut description = tag.title.clone();
        if let Some(text) = &tag.description {
            description = Some(match description {
                Some(title) => title + " - " + text,
                None => text.clone(),
            });
        }
"""))
r("x05-fields-partition", (BQ, """                    object
                        .fields
                        .iter()
                        .map(|(k, v)| (k.to_string(), Tag::translate_from(*v.clone(), context)))
                        .filter(|(_, v)| v.is_ok())
                        .map(|(k, v)| (k, Box::new(v.unwrap())))
                        .collect()
""", """                    let mut fields = HashMap::new();
                    object.fields.iter().for_each(|(name, tag)| {
                        if let Ok(column) = Tag::translate_from(*tag.clone(), context) {
                            fields.insert(name.to_string(), Box::new(column));
                        }
                    });
                    fields
"""))
r("x06-tuple-try", (BQ, """                let fields: Result<Vec<_>, _> = tuple
                    .items
                    .iter()
                    .map(|v| Tag::translate_from(v.clone(), context))
                    .collect();

                let named_fields: HashMap<String, Box<Tag>> = fields?
                    .into_iter()
                    .enumerate()
                    .map(|(i, mut v)| {
                        // The name is actually derived from the value, not from
                        // the associated key. Modify the name in place.
                        let name = format!("f{}_", i);
                        v.name = Some(name.clone());
                        (name, Box::new(v))
                    })
                    .collect();

                Type::Record(Record {
                    fields: named_fields,
                })
""", """                let mut fields = HashMap::with_capacity(tuple.items.len());
                for (i, item) in tuple.items.iter().enumerate() {
                    let name = format!("f{}_", i);
                    let mut column = Tag::translate_from(item.clone(), context)?;
                    column.name = Some(name.clone());
                    fields.insert(name, Box::new(column));
                }
                Type::Record(Record { fields })
"""))
r("x07-tuple-collect-result", (BQ, """                let fields: Result<Vec<_>, _> = tuple
                    .items
                    .iter()
                    .map(|v| Tag::translate_from(v.clone(), context))
                    .collect();

                let named_fields: HashMap<String, Box<Tag>> = fields?
                    .into_iter()
                    .enumerate()
                    .map(|(i, mut v)| {
                        // The name is actually derived from the value, not from
                        // the associated key. Modify the name in place.
                        let name = format!("f{}_", i);
                        v.name = Some(name.clone());
                        (name, Box::new(v))
                    })
                    .collect();
""", """                let named_fields = tuple
                    .items
                    .iter()
                    .enumerate()
                    .map(|(i, item)| {
                        let name = format!("f{}_", i);
                        let column = Tag {
                            name: Some(name.clone()),
                            ..Tag::translate_from(item.clone(), context)?
                        };
                        Ok((name, Box::new(column)))
                    })
                    .collect::<Result<HashMap<String, Box<Tag>>, String>>()?;
"""))
r("x08-array-question", (BQ, """                let sub_tag = match Tag::translate_from(*array.items.clone(), context) {
                    Ok(tag) => tag,
                    Err(_) => return Err(fmt_reason("untyped array")),
                };
                if child_is_array {
                    Type::Record(Record {
                        fields: hashmap! {"list".into() => Box::new(sub_tag)},
                    })
                } else {
                    *sub_tag.data_type
                }
""", """                let items = Tag::translate_from(*array.items.clone(), context)
                    .or_else(|_| Err(fmt_reason("untyped array")))?;
                if !child_is_array {
                    *items.data_type
                } else {
                    let mut fields = HashMap::new();
                    fields.insert(String::from("list"), Box::new(items));
                    Type::Record(Record { fields })
                }
"""))
r("x09-map-fields-array", (BQ, """                let value = match Tag::translate_from(*map.value.clone(), context) {
                    Ok(tag) => Some(tag),
                    Err(_) => {
                        if context.allow_maps_without_value {
                            None
                        } else {
                            return Err(fmt_reason("untyped map value"));
                        }
                    }
                };
                let fields: HashMap<String, Box<Tag>> =
                    vec![Some(("key", key)), value.map(|v| ("value", v))]
                        .into_iter()
                        .flatten()
                        .map(|(k, v)| (k.to_string(), Box::new(v)))
                        .collect();
""", """                let value = Tag::translate_from(*map.value.clone(), context);
                if value.is_err() && !context.allow_maps_without_value {
                    return Err(fmt_reason("untyped map value"));
                }
                let mut fields = HashMap::from([("key".to_string(), Box::new(key))]);
                fields.extend(value.ok().map(|value| ("value".to_string(), Box::new(value))));
"""))
r("x10-schema-name", (BQ, """            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                assert!(bq_tag.name.is_none());
                bq_tag.name = Some(DEFAULT_COLUMN.into());
                Ok(Schema::Root(vec![bq_tag]))
            }
            Type::Atom(_) => {
                assert!(bq_tag.name.is_none());
                bq_tag.name = Some(DEFAULT_COLUMN.into());
                Ok(Schema::Root(vec![bq_tag]))
            }
            Type::Record(record) => {
                let mut vec: Vec<_> = record.fields.into_iter().collect();
                vec.sort_by_key(|(key, _)| key.to_string());
                let columns = vec.into_iter().map(|(_, v)| *v).collect();
                Ok(Schema::Root(columns))
            }
        }
""", """            Type::Record(record) if !matches!(bq_tag.mode, Mode::Repeated) => {
                let mut columns: Vec<(String, Box<Tag>)> = record.fields.into_iter().collect();
                columns.sort_by(|(left, _), (right, _)| left.cmp(right));
                Ok(Schema::Root(columns.into_iter().map(|(_, column)| *column).collect()))
            }
            _ => {
                assert!(bq_tag.name.is_none());
                let name = Some(DEFAULT_COLUMN.to_string());
                Ok(Schema::Root(vec![Tag { name, ..bq_tag }]))
            }
        }
"""), (BQ, "let mut bq_tag = Tag::translate_from(tag, context).unwrap();", "let bq_tag = Tag::translate_from(tag, context).unwrap();"))
r("x11-schema-if", (BQ, """        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
        match *bq_tag.data_type {""", """        let mut bq_tag = match Tag::translate_from(tag, context) {
            Ok(bq_tag) => bq_tag,
            Err(reason) => panic!("{}", reason),
        };
        match *bq_tag.data_type {"""))
r("x12-atom-json-guard", (BQ, """                ast::Atom::Json => {
                    if context.is_json_object_path(&tag.fully_qualified_name()) {
                        Atom::Json
                    } else {
                        match handle_error("json atom") {
                            Ok(_) => Atom::String,
                            Err(reason) => return Err(reason),
                        }
                    }
                }
            }),""", """                ast::Atom::Json if context.is_json_object_path(&tag.fully_qualified_name()) => {
                    Atom::Json
                }
                ast::Atom::Json => handle_error("json atom").map(|_| Atom::String)?,
            }),"""))
r("x13-split-types", (BQ, """            ast::Type::Array(array) => {
                // workaround for nested lists
                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));
                let sub_tag = match Tag::translate_from(*array.items.clone(), context) {
                    Ok(tag) => tag,
                    Err(_) => return Err(fmt_reason("untyped array")),
                };
                if child_is_array {
                    Type::Record(Record {
                        fields: hashmap! {"list".into() => Box::new(sub_tag)},
                    })
                } else {
                    *sub_tag.data_type
                }
            }
""", """            ast::Type::Array(array) => match Type::from_items(&array.items, context) {
                Some(data_type) => data_type,
                None => return Err(fmt_reason("untyped array")),
            },
"""), (BQ, """/// See: https://cloud.google.com/bigquery/docs/schemas#standard_sql_data_types
#[derive""", """impl Type {
    /// The type of a repeated column. Lists of lists go through a record.
    fn from_items(items: &ast::Tag, context: &Context) -> Option<Type> {
        let column = Tag::translate_from(items.clone(), context).ok()?;
        Some(if items.is_array() {
            let fields = std::iter::once(("list".to_string(), Box::new(column))).collect();
            Type::Record(Record { fields })
        } else {
            *column.data_type
        })
    }
}

/// See: https://cloud.google.com/bigquery/docs/schemas#standard_sql_data_types
#[derive"""))
r("x14-serialize-refs", (BQ, """        let mut vec: Vec<(String, &Tag)> = map.iter().map(|(k, v)| (k.to_string(), &**v)).collect();
        vec.sort_by_key(|(k, _)| k.to_string());

        for (_, element) in vec {
            seq.serialize_element(element)?;
        }
        seq.end()
""", """        let mut names: Vec<&String> = map.keys().collect();
        names.sort();
        for name in names {
            seq.serialize_element(&map[name])?;
        }
        seq.end()
"""))
r("x15-truncate-if", (BQ, """        let truncated_description =
            description.map(|d| d.chars().take(MAX_DESCRIPTION_LENGTH).collect());
""", """        let truncated_description = match description {
            Some(text) if text.chars().count() > MAX_DESCRIPTION_LENGTH => {
                Some(text.chars().take(MAX_DESCRIPTION_LENGTH).collect::<String>())
            }
            other => other,
        };
"""))
r("x16-order", (BQ, """        Ok(Tag {
            name: tag.name.clone(),
            data_type: Box::new(data_type),
            mode,
            description: truncated_description,
        })
""", """        let column = Tag {
            description: truncated_description,
            mode,
            data_type: Box::new(data_type),
            name: tag.name,
        };
        Ok(column)
"""))

# ---- jsonschema.rs
r("y01-get-type-parse", (JS, """            (Value::String(string), _) => {
                let atom: Atom = serde_json::from_value(json!(string)).unwrap();
                Type::Atom(atom)
            }
            (Value::Array(array), _) => {
                let list: Vec<Atom> = array
                    .iter()
                    .map(|v| serde_json::from_value(json!(v)).unwrap())
                    .collect();
                Type::List(list)
            }
""", """            (Value::String(_), _) => Type::Atom(Atom::parse(&self.data_type)),
            (Value::Array(array), _) => Type::List(array.iter().map(Atom::parse).collect()),
"""), (JS, """enum Type {
    Atom(Atom),""", """impl Atom {
    fn parse(name: &Value) -> Atom {
        match serde_json::from_value(name.clone()) {
            Ok(atom) => atom,
            Err(reason) => panic!("{:?}", reason),
        }
    }
}

enum Type {
    Atom(Atom),"""), (JS, "use serde_json::{json, Value};", "use serde_json::Value;"))
r("y02-get-type-deserialize", (JS, """                let atom: Atom = serde_json::from_value(json!(string)).unwrap();
                Type::Atom(atom)
""", """                Type::Atom(serde_json::from_value(Value::String(string.clone())).expect("a simple type"))
"""))
r("y03-list-split", (JS, """                let mut nullable: bool = false;
                let mut items: Vec<ast::Tag> = Vec::new();
                for atom in list {
                    if let Atom::Null = &atom {
                        nullable = true;
                    }
                    items.push(self.atom_into_ast(atom, context)?);
                }
""", """                let nullable = list.iter().any(|atom| matches!(atom, Atom::Null));
                let items = list
                    .into_iter()
                    .map(|atom| self.atom_into_ast(atom, context))
                    .collect::<Result<Vec<_>, _>>()?;
"""))
r("y04-list-fold", (JS, """                let mut nullable: bool = false;
                let mut items: Vec<ast::Tag> = Vec::new();
                for atom in list {
                    if let Atom::Null = &atom {
                        nullable = true;
                    }
                    items.push(self.atom_into_ast(atom, context)?);
                }
""", """                let (items, nullable) = list.into_iter().try_fold(
                    (Vec::new(), false),
                    |(mut items, nullable), atom| {
                        let is_null = matches!(atom, Atom::Null);
                        items.push(self.atom_into_ast(atom, context)?);
                        Ok::<_, &'static str>((items, nullable || is_null))
                    },
                )?;
"""))
r("y05-scalar-type", (JS, """            Atom::Boolean => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Boolean),
                None,
                false,
                description,
                title,
            ),
            Atom::Number => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Number),
                None,
                false,
                description,
                title,
            ),
            Atom::Integer => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Integer),
                None,
                false,
                description,
                title,
            ),
            Atom::String => ast::Tag::new(
                ast::Type::Atom(ast::Atom::String),
                None,
                false,
                description,
                title,
            ),
            Atom::DateTime => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Datetime),
                None,
                false,
                description,
                title,
            ),
            Atom::Bytes => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Bytes),
                None,
                false,
                description,
                title,
            ),
""", """            Atom::Boolean | Atom::Number | Atom::Integer | Atom::String | Atom::DateTime | Atom::Bytes => {
                let atom = match data_type {
                    Atom::Boolean => ast::Atom::Boolean,
                    Atom::Number => ast::Atom::Number,
                    Atom::Integer => ast::Atom::Integer,
                    Atom::DateTime => ast::Atom::Datetime,
                    Atom::Bytes => ast::Atom::Bytes,
                    _ => ast::Atom::String,
                };
                ast::Tag::new(ast::Type::Atom(atom), None, false, description, title)
            }
"""))
r("y06-object-tag-closure", (JS, """        let description = self.description.clone();
        let title = self.title.clone();

        let result = match data_type {
            Atom::Null => ast::Tag::new(ast::Type::Null, None, true, description, title),
            Atom::Boolean => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Boolean),
                None,
                false,
                description,
                title,
            ),
            Atom::Number => ast::Tag::new(
                ast::Type::Atom(ast::Atom::Number),
                None,
                false,
                description,
                title,
            ),
""", """        let description = self.description.clone();
        let title = self.title.clone();
        let plain = |data_type: ast::Type| {
            ast::Tag::new(data_type, None, false, self.description.clone(), self.title.clone())
        };

        let result = match data_type {
            Atom::Null => {
                let mut tag = plain(ast::Type::Null);
                tag.nullable = true;
                tag
            }
            Atom::Boolean => plain(ast::Type::Atom(ast::Atom::Boolean)),
            Atom::Number => plain(ast::Type::Atom(ast::Atom::Number)),
"""))
r("y07-fields-collect", (JS, """                    let mut fields: HashMap<String, ast::Tag> = HashMap::new();
                    for (key, value) in properties {
                        fields.insert(key.to_string(), value.type_into_ast(context)?);
                    }
""", """                    let fields = properties
                        .iter()
                        .map(|(key, value)| Ok((key.clone(), value.type_into_ast(context)?)))
                        .collect::<Result<HashMap<String, ast::Tag>, &'static str>>()?;
"""))
r("y08-pattern-union-helper", (JS, """                            let mut vec: Vec<ast::Tag> = Vec::new();
                            vec.push(add.type_into_ast(context)?);
                            let pat_vec: Result<Vec<_>, _> =
                                pat.values().map(|v| v.type_into_ast(context)).collect();
                            vec.extend(pat_vec?);
                            let value = ast::Tag::new(
                                ast::Type::Union(ast::Union::new(vec)),
                                None,
                                false,
                                None,
                                None,
                            );
""", """                            let mut vec = vec![add.type_into_ast(context)?];
                            for pattern in pat.values() {
                                let tag = pattern.type_into_ast(context)?;
                                vec.push(tag);
                            }
                            let value = ast::Tag {
                                data_type: ast::Type::Union(ast::Union::new(vec)),
                                ..Default::default()
                            };
"""))
r("y09-map-merged-arms", (JS, """                        (Some(AdditionalProperties::Object(add)), Some(pat)) => {
                            let mut vec: Vec<ast::Tag> = Vec::new();
                            vec.push(add.type_into_ast(context)?);
                            let pat_vec: Result<Vec<_>, _> =
                                pat.values().map(|v| v.type_into_ast(context)).collect();
                            vec.extend(pat_vec?);
                            let value = ast::Tag::new(
                                ast::Type::Union(ast::Union::new(vec)),
                                None,
                                false,
                                None,
                                None,
                            );

                            ast::Tag::new(
                                ast::Type::Map(ast::Map::new(None, value)),
                                None,
                                false,
                                description,
                                title,
                            )
                        }
                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(
                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),
                            None,
                            false,
                            description,
                            title,
                        ),
                        (_, Some(tag)) => {
                            let items: Result<Vec<_>, _> =
                                tag.values().map(|v| v.type_into_ast(context)).collect();
                            let union = ast::Tag::new(
                                ast::Type::Union(ast::Union::new(items?)),
                                None,
                                false,
                                None,
                                None,
                            );
                            ast::Tag::new(
                                ast::Type::Map(ast::Map::new(None, union)),
                                None,
                                false,
                                description,
                                title,
                            )
                        }
""", """                        (Some(AdditionalProperties::Object(tag)), None) => ast::Tag::new(
                            ast::Type::Map(ast::Map::new(None, tag.type_into_ast(context)?)),
                            None,
                            false,
                            description,
                            title,
                        ),
                        (additional, Some(patterns)) => {
                            let additional = match additional {
                                Some(AdditionalProperties::Object(tag)) => Some(tag),
                                _ => None,
                            };
                            let items: Vec<ast::Tag> = additional
                                .into_iter()
                                .chain(patterns.values())
                                .map(|tag| tag.type_into_ast(context))
                                .collect::<Result<_, _>>()?;
                            let value = ast::Tag::new(
                                ast::Type::Union(ast::Union::new(items)),
                                None,
                                false,
                                None,
                                None,
                            );
                            ast::Tag::new(
                                ast::Type::Map(ast::Map::new(None, value)),
                                None,
                                false,
                                description,
                                title,
                            )
                        }
"""))
r("y10-oneof-if-let", (JS, """                            match &self.one_of {
                                Some(vec) => {
                                    let items: Result<Vec<_>, _> = vec
                                        .iter()
                                        .map(|item| item.type_into_ast(context))
                                        .collect();
                                    let unwrapped = items?;
                                    let nullable: bool = unwrapped.iter().any(ast::Tag::is_null);
                                    ast::Tag::new(
                                        ast::Type::Union(ast::Union::new(unwrapped)),
                                        None,
                                        nullable,
                                        description,
                                        title,
                                    )
                                }
                                None => ast::Tag::new(
                                    ast::Type::Atom(ast::Atom::Json),
                                    None,
                                    false,
                                    description,
                                    title,
                                ),
                            }
""", """                            let mut nullable = false;
                            let data_type = if let Some(alternatives) = &self.one_of {
                                let mut items = Vec::with_capacity(alternatives.len());
                                for alternative in alternatives {
                                    let item = alternative.type_into_ast(context)?;
                                    nullable |= item.is_null();
                                    items.push(item);
                                }
                                ast::Type::Union(ast::Union::new(items))
                            } else {
                                ast::Type::Atom(ast::Atom::Json)
                            };
                            ast::Tag::new(data_type, None, nullable, description, title)
"""))
r("y11-array-method", (JS, """                if let Some(items) = &self.array.items {
                    let data_type = match items {
                        ArrayType::Tag(items) => {
                            ast::Type::Array(ast::Array::new(items.type_into_ast(context)?))
                        }
                        ArrayType::TagTuple(items) => {""", """                if let Some(items) = &self.array.items {
                    let data_type = match items {
                        ArrayType::Tag(items) => items
                            .type_into_ast(context)
                            .map(ast::Array::new)
                            .map(ast::Type::Array)?,
                        ArrayType::TagTuple(items) => {"""))
r("y12-tuple-optional-index", (JS, """                                let min_items: usize =
                                    self.array.min_items.unwrap_or(unwrapped.len());
                                // set items to optional
                                for item in unwrapped.iter_mut().skip(min_items) {
                                    item.nullable = true;
                                }
""", """                                // set items to optional
                                if let Some(min_items) = self.array.min_items {
                                    for (position, item) in unwrapped.iter_mut().enumerate() {
                                        if position >= min_items {
                                            item.nullable = true;
                                        }
                                    }
                                }
"""))
r("y13-tuple-pad-extend", (JS, """                                        for _ in unwrapped.len()..max_items {
                                            let mut ast_tag = tag.type_into_ast(context)?;
                                            ast_tag.nullable = true;
                                            unwrapped.push(ast_tag);
                                        }
                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))
""", """                                        let padding: Vec<ast::Tag> = (unwrapped.len()..max_items)
                                            .map(|_| {
                                                tag.type_into_ast(context).map(|tag| ast::Tag {
                                                    nullable: true,
                                                    ..tag
                                                })
                                            })
                                            .collect::<Result<_, _>>()?;
                                        unwrapped.extend(padding);
                                        ast::Type::Tuple(ast::Tuple::new(unwrapped))
"""))
r("y14-tuple-bool-first", (JS, """                                    None => {
                                        // additionalItems may be unspecified if the max_length
                                        // matches the number of items in the tuple. This corresponds
                                        // to optional tuple values (variable length tuple).
                                        let max_items: usize = self.array.max_items.unwrap_or(0);
                                        if max_items == unwrapped.len() {
                                            ast::Type::Tuple(ast::Tuple::new(unwrapped))
                                        } else {
                                            return Err("maxItems must be set if additionalItems are allowed");
                                        }
                                    }
                                    _ => return Err("additionalItems set incorrectly"),
""", """                                    Some(AdditionalProperties::Bool(true)) => {
                                        return Err("additionalItems set incorrectly")
                                    }
                                    None if self.array.max_items.unwrap_or_default() != unwrapped.len() => {
                                        return Err("maxItems must be set if additionalItems are allowed");
                                    }
                                    None => ast::Type::Tuple(ast::Tuple { items: unwrapped }),
"""))
r("y15-tuple-early", (JS, """                            if context.tuple_struct {
                                let items: Result<Vec<_>, _> = items
                                    .iter()
                                    .map(|item| item.type_into_ast(context))
                                    .collect();
                                let mut unwrapped = items?;
""", """                            if !context.tuple_struct {
                                ast::Type::Atom(ast::Atom::Json)
                            } else {
                                let mut unwrapped: Vec<ast::Tag> = Vec::with_capacity(items.len());
                                for item in items.iter() {
                                    unwrapped.push(item.type_into_ast(context)?);
                                }
"""), (JS, """                                    _ => return Err("additionalItems set incorrectly"),
                                }
                            } else {
                                ast::Type::Atom(ast::Atom::Json)
                            }
""", """                                    _ => return Err("additionalItems set incorrectly"),
                                }
                            }
"""))
r("y16-clone-late", (JS, """                let description = self.description.clone();
                let title = self.title.clone();

                Ok(ast::Tag::new(
                    ast::Type::Union(ast::Union::new(items)),
                    None,
                    nullable,
                    description,
                    title,
                ))
""", """                let union = ast::Type::Union(ast::Union::new(items));
                let mut tag = ast::Tag::new(union, None, nullable, None, None);
                tag.description.clone_from(&self.description);
                tag.title.clone_from(&self.title);
                Ok(tag)
"""))

# ---- lib.rs, main.rs
r("k01-path-match", (LIB, """        self.json_object_path_regex
            .as_ref()
            .map(|object_regex| {
                // Ensure we match from the beginning of the string
                let re = format!(r"\\A(?:{})", object_regex);
                let json_object_path_re = Regex::new(&re).unwrap();
                json_object_path_re.is_match(fqn)
            })
            .unwrap_or(false)
""", """        let Some(object_regex) = &self.json_object_path_regex else {
            return false;
        };
        // Ensure we match from the beginning of the string
        let mut pattern = String::from(r"\\A(?:");
        pattern.push_str(object_regex);
        pattern.push(')');
        match Regex::new(&pattern) {
            Ok(re) => re.is_match(fqn),
            Err(reason) => panic!("{}", reason),
        }
"""))
r("k02-path-is-some-and", (LIB, """            .map(|object_regex| {
                // Ensure we match from the beginning of the string
                let re = format!(r"\\A(?:{})", object_regex);
                let json_object_path_re = Regex::new(&re).unwrap();
                json_object_path_re.is_match(fqn)
            })
            .unwrap_or(false)
""", """            .is_some_and(|pattern| {
                Regex::new(&format!(r"\\A(?:{pattern})"))
                    .unwrap()
                    .find(fqn)
                    .is_some()
            })
"""))
r("k03-into-ast-value", (LIB, """    let jsonschema: jsonschema::Tag = match serde_json::from_value(json!(input)) {
        Ok(tag) => tag,
        Err(e) => panic!("{:#?}", e),
    };
""", """    let jsonschema: jsonschema::Tag =
        serde_json::from_value(input.clone()).unwrap_or_else(|e| panic!("{:#?}", e));
"""))
r("k04-into-ast-ref", (LIB, """    let jsonschema: jsonschema::Tag = match serde_json::from_value(json!(input)) {
        Ok(tag) => tag,
        Err(e) => panic!("{:#?}", e),
    };
""", """    let jsonschema = <jsonschema::Tag as serde::Deserialize>::deserialize(input.clone()).expect("a JSON schema");
"""))
r("k05-by-value", (LIB, "fn into_ast(input: &Value, context: &mut Context) -> ast::Tag {", "fn into_ast(input: &Value, mut context: Context) -> (ast::Tag, Context) {"),
  (LIB, "    ast::Tag::translate_from(jsonschema, context).unwrap()\n", "    let tag = ast::Tag::translate_from(jsonschema, &context).unwrap();\n    (tag, context)\n"),
  (LIB, """pub fn convert_avro(input: &Value, mut context: Context) -> Value {
    let ast = into_ast(input, &mut context);""", """pub fn convert_avro(input: &Value, context: Context) -> Value {
    let (ast, context) = into_ast(input, context);"""),
  (LIB, """pub fn convert_bigquery(input: &Value, mut context: Context) -> Value {
    let ast = into_ast(input, &mut context);""", """pub fn convert_bigquery(input: &Value, context: Context) -> Value {
    let (ast, context) = into_ast(input, context);"""))
r("k06-to-value", (LIB, "    json!(avro)\n", "    serde_json::to_value(&avro).expect(\"an Avro schema is JSON\")\n"), (LIB, "    json!(bq)\n", "    serde_json::to_value(bq).unwrap()\n"))
r("k07-metadata-match", (LIB, """    let metadata = jsonschema
        .extra
        .get("mozPipelineMetadata")
        .and_then(|obj| obj["json_object_path_regex"].as_str());
    if let Some(json_object_path_regex) = metadata {
        context.json_object_path_regex = Some(json_object_path_regex.to_string());
    }
""", """    if let Some(metadata) = jsonschema.extra.get("mozPipelineMetadata") {
        if let Value::String(pattern) = &metadata["json_object_path_regex"] {
            context.json_object_path_regex = Some(pattern.clone());
        }
    }
"""))
r("k08-metadata-or", (LIB, """    let metadata = jsonschema
        .extra
        .get("mozPipelineMetadata")
        .and_then(|obj| obj["json_object_path_regex"].as_str());
    if let Some(json_object_path_regex) = metadata {
        context.json_object_path_regex = Some(json_object_path_regex.to_string());
    }
""", """    let metadata = jsonschema.extra.get("mozPipelineMetadata");
    let pattern = metadata
        .and_then(|metadata| metadata.get("json_object_path_regex"))
        .and_then(Value::as_str)
        .map(str::to_owned);
    context.json_object_path_regex = pattern.or(context.json_object_path_regex.take());
"""))
r("k09-convert-generic", (LIB, """    let ast = into_ast(input, &mut context);
    let avro = avro::Type::translate_from(ast, &context).unwrap();
    json!(avro)
""", """    convert::<avro::Type>(input, &mut context)
"""), (LIB, """    let ast = into_ast(input, &mut context);
    let bq = bigquery::Schema::translate_from(ast, &context).unwrap();
    json!(bq)
""", """    convert::<bigquery::Schema>(input, &mut context)
"""), (LIB, """/// Convert JSON Schema into an Avro compatible schema
""", """fn convert<T>(input: &Value, context: &mut Context) -> Value
where
    T: TranslateFrom<ast::Tag> + serde::Serialize,
    T::Error: std::fmt::Debug,
{
    let ast = into_ast(input, context);
    let schema = T::translate_from(ast, context).unwrap();
    json!(schema)
}

/// Convert JSON Schema into an Avro compatible schema
"""))
READER = """    let reader: Box<dyn io::Read> = match &args.file {
        Some(path) if path == "-" => Box::new(io::stdin()),
        Some(path) => {
            let file = File::open(path).unwrap();
            Box::new(BufReader::new(file))
        }
        None => Box::new(io::stdin()),
    };
    let data: Value = serde_json::from_reader(reader).unwrap();
"""
r("k10-reader-deref", (MAIN, READER, """    let data: Value = match args.file.as_deref() {
        None | Some("-") => serde_json::from_reader(io::stdin()).unwrap(),
        Some(path) => serde_json::from_reader(BufReader::new(File::open(path).unwrap())).unwrap(),
    };
"""))
r("k11-read-string", (MAIN, READER, """    let text = read_input(args.file.as_deref()).unwrap();
    let data: Value = serde_json::from_str(&text).unwrap();
"""), (MAIN, "fn main() {\n", """fn read_input(path: Option<&str>) -> io::Result<String> {
    match path {
        None | Some("-") => io::read_to_string(io::stdin()),
        Some(path) => std::fs::read_to_string(path),
    }
}

fn main() {
"""), (MAIN, "use std::fs::File;\nuse std::io::{self, BufReader};", "use std::io;"))
r("k12-writeln", (MAIN, """    println!("{}", pretty);
""", """    let mut stdout = io::stdout().lock();
    io::Write::write_all(&mut stdout, pretty.as_bytes()).unwrap();
    io::Write::write_all(&mut stdout, b"\\n").unwrap();
"""))
r("k13-to-writer", (MAIN, """    let pretty = serde_json::to_string_pretty(&output).unwrap();
    println!("{}", pretty);
""", """    let mut stdout = io::stdout();
    serde_json::to_writer_pretty(&mut stdout, &output).unwrap();
    println!();
"""))
r("k14-run", (MAIN, """    let data: Value = serde_json::from_reader(reader).unwrap();
    let context = Context {""", """    let data: Value = serde_json::from_reader(reader).unwrap();
    let output = run(&args, &data);
    let pretty = serde_json::to_string_pretty(&output).unwrap();
    println!("{}", pretty);
}

fn run(args: &Args, data: &Value) -> Value {
    let context = Context {"""), (MAIN, """    let output = match args.typ {
        Type::Avro => jst::convert_avro(&data, context),
        Type::Bigquery => jst::convert_bigquery(&data, context),
    };
    let pretty = serde_json::to_string_pretty(&output).unwrap();
    println!("{}", pretty);
}""", """    if args.typ == Type::Bigquery {
        jst::convert_bigquery(data, context)
    } else {
        jst::convert_avro(data, context)
    }
}"""))
r("k15-from-args", (MAIN, """    let context = Context {
        resolve_method: match args.resolve {
            Resolve::Cast => ResolveMethod::Cast,
            Resolve::Panic => ResolveMethod::Panic,
            Resolve::Drop => ResolveMethod::Drop,
        },
        normalize_case: args.normalize_case,
        force_nullable: args.force_nullable,
        tuple_struct: args.tuple_struct,
        allow_maps_without_value: args.allow_maps_without_value,
        json_object_path_regex: None,
    };
""", """    let context = Context::from(&args);
"""), (MAIN, "fn main() {\n", """impl From<Resolve> for ResolveMethod {
    fn from(resolve: Resolve) -> Self {
        match resolve {
            Resolve::Cast => Self::Cast,
            Resolve::Panic => Self::Panic,
            Resolve::Drop => Self::Drop,
        }
    }
}

impl From<&Args> for Context {
    fn from(args: &Args) -> Self {
        let mut context = Context::default();
        context.resolve_method = args.resolve.into();
        context.normalize_case = args.normalize_case;
        context.force_nullable = args.force_nullable;
        context.tuple_struct = args.tuple_struct;
        context.allow_maps_without_value = args.allow_maps_without_value;
        context
    }
}

fn main() {
"""))
r("k16-lib-context-new", (LIB, """impl Context {
    /// Determine""", """impl Context {
    /// The default options with another resolution method.
    pub fn with_method(resolve_method: ResolveMethod) -> Self {
        Context {
            resolve_method,
            ..Default::default()
        }
    }

    /// Determine"""), (MAIN, """    let context = Context {
        resolve_method: match args.resolve {
            Resolve::Cast => ResolveMethod::Cast,
            Resolve::Panic => ResolveMethod::Panic,
            Resolve::Drop => ResolveMethod::Drop,
        },
        normalize_case: args.normalize_case,
        force_nullable: args.force_nullable,
        tuple_struct: args.tuple_struct,
        allow_maps_without_value: args.allow_maps_without_value,
        json_object_path_regex: None,
    };
""", """    let context = Context {
        normalize_case: args.normalize_case,
        force_nullable: args.force_nullable,
        tuple_struct: args.tuple_struct,
        allow_maps_without_value: args.allow_maps_without_value,
        ..Context::with_method(match args.resolve {
            Resolve::Cast => ResolveMethod::Cast,
            Resolve::Panic => ResolveMethod::Panic,
            Resolve::Drop => ResolveMethod::Drop,
        })
    };
"""))

# the order of a union's members has no effect on what it resolves to
r("z01-objects-reversed", (AST, """        } else if items.iter().all(Tag::is_object) {
            items
                .into_iter()
                .fold""", """        } else if items.iter().all(Tag::is_object) {
            items
                .into_iter()
                .rev()
                .fold"""))
r("z02-maps-reversed", (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Map""", """            let tags: Vec<Tag> = items
                .into_iter()
                .rev()
                .map(|x| match &x.data_type {
                    Type::Map"""))
r("z03-arrays-reversed", (AST, """            let tags: Vec<Tag> = items
                .into_iter()
                .map(|x| match &x.data_type {
                    Type::Array""", """            let tags: Vec<Tag> = items
                .into_iter()
                .rev()
                .map(|x| match &x.data_type {
                    Type::Array"""))
r("z04-nonnull-reversed", (AST, "items.into_iter().filter(|x| !x.is_null()).collect();", "items.into_iter().rev().filter(|x| !x.is_null()).collect();"))
r("z05-right-first", (AST, "                                vec.push(*value.clone())", "                                vec.insert(0, *value.clone())"))
r("z06-reducing-right", (AST, """                        for (key, value) in &left.fields {
                            union.insert(key.to_string(), vec![*value.clone()]);
                        }
                        for (key, value) in &right.fields {""", """                        for (key, value) in &right.fields {
                            union.insert(key.to_string(), vec![*value.clone()]);
                        }
                        for (key, value) in &left.fields {"""))

# snake-casing
CH = '''    let subbed: String = EXTRA_SYMBOL.replace_all(input, " ").chars().rev().collect();
    let words: Vec<&str> = REV_WORD_BOUNDARY
        .split(&subbed)
        .filter(|s| !s.trim().is_empty())
        .collect();
    words.join("_").to_lowercase().chars().rev().collect()
'''
DEF = "    input.to_snake_case()\n"
r("w01-class", (CASE, 'r"[^\\w]|_"', 'r"[\\W_]"'))
r("w02-digits", (CASE, "(?<=[A-Z])(?=\\d*[a-z]) ", "(?<=[A-Z])(?=[0-9]*[a-z]) "))
r("w03-drop-alt", (CASE, "            |(?<=[a-z][A-Z])(?=\\d*[a-z])    # break on runs of lowercase e.g a7Aa -> a7|Aa\n", ""))
r("w04-compact", (CASE, '''r"(?x)
            \\b                              # standard word boundary
            |(?<=[a-z][A-Z])(?=\\d*[A-Z])    # break on runs of uppercase e.g. A7Aa -> A7|Aa
            |(?<=[a-z][A-Z])(?=\\d*[a-z])    # break on runs of lowercase e.g a7Aa -> a7|Aa
            |(?<=[A-Z])(?=\\d*[a-z])         # break on final uppercase e.g. a7A -> a7|A
            ",''', '''r"\\b|(?<=[a-z][A-Z])(?=\\d*[A-Za-z])|(?<=[A-Z])(?=\\d*[a-z])",'''))
r("w05-lower-late", (CASE, CH, '''    let subbed: String = EXTRA_SYMBOL.replace_all(input, " ").chars().rev().collect();
    let mut words: Vec<String> = Vec::new();
    for word in REV_WORD_BOUNDARY.split(&subbed) {
        if word.trim().is_empty() {
            continue;
        }
        words.push(word.to_lowercase());
    }
    words.join("_").chars().rev().collect()
'''))
r("w06-rev-helper", (CASE, CH, '''    fn reversed(s: &str) -> String {
        s.chars().rev().collect()
    }
    let blank = EXTRA_SYMBOL.replace_all(input, " ");
    let subbed = reversed(&blank);
    let words = REV_WORD_BOUNDARY
        .split(&subbed)
        .filter(|s| s.trim() != "")
        .map(|s| s.to_lowercase())
        .collect::<Vec<String>>();
    reversed(&words.join("_"))
'''))
r("w07-words-rev", (CASE, CH, '''    let subbed: String = EXTRA_SYMBOL.replace_all(input, " ").chars().rev().collect();
    let mut words: Vec<String> = REV_WORD_BOUNDARY
        .split(&subbed)
        .map(|s| s.trim())
        .filter(|s| !s.is_empty())
        .map(|s| s.chars().rev().collect::<String>().to_lowercase())
        .collect();
    words.reverse();
    words.join("_")
'''))
r("w08-empty-first", (CASE, DEF, '''    if input.is_empty() {
        return String::new();
    }
    ToSnakeCase::to_snake_case(input)
'''))
r("w09-oncelock", (CASE, '''    let subbed: String = EXTRA_SYMBOL.replace_all(input, " ").chars().rev().collect();
''', '''    let symbol: &Regex = &EXTRA_SYMBOL;
    let mut subbed = String::with_capacity(input.len());
    subbed.extend(symbol.replace_all(input, " ").chars().rev());
'''))
r("w10-owned", (CASE, DEF, '''    let name = input.to_owned();
    name.as_str().to_snake_case()
'''))
r("w11-lower-fast", (CASE, DEF, '''    if !input.is_empty() && input.chars().all(|c| c.is_ascii_lowercase()) {
        return input.to_string();
    }
    input.to_snake_case()
'''))
r("w12-onig-fast", (CASE, CH, '''    if input.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()) {
        return input.to_owned();
    }
''' + CH))
