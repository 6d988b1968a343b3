//! Abstract schemas: generation, lookups, and the introspection JSON a server would return.

use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TypeRef {
    Named(String),
    NonNull(Box<TypeRef>),
    List(Box<TypeRef>),
}

impl TypeRef {
    pub fn named(name: &str) -> TypeRef {
        TypeRef::Named(name.to_string())
    }
    pub fn non_null(self) -> TypeRef {
        match self {
            TypeRef::NonNull(_) => self,
            other => TypeRef::NonNull(Box::new(other)),
        }
    }
    pub fn list(self) -> TypeRef {
        TypeRef::List(Box::new(self))
    }
    pub fn base(&self) -> &str {
        match self {
            TypeRef::Named(n) => n,
            TypeRef::NonNull(t) | TypeRef::List(t) => t.base(),
        }
    }
    pub fn is_non_null(&self) -> bool {
        matches!(self, TypeRef::NonNull(_))
    }
    pub fn levels(&self) -> usize {
        match self {
            TypeRef::Named(_) => 0,
            TypeRef::NonNull(t) => 1 + t.levels(),
            TypeRef::List(t) => 1 + t.levels(),
        }
    }
    pub fn lists(&self) -> usize {
        match self {
            TypeRef::Named(_) => 0,
            TypeRef::NonNull(t) => t.lists(),
            TypeRef::List(t) => 1 + t.lists(),
        }
    }
    pub fn with_base(&self, base: &str) -> TypeRef {
        match self {
            TypeRef::Named(_) => TypeRef::named(base),
            TypeRef::NonNull(t) => TypeRef::NonNull(Box::new(t.with_base(base))),
            TypeRef::List(t) => TypeRef::List(Box::new(t.with_base(base))),
        }
    }
    pub fn gql(&self) -> String {
        match self {
            TypeRef::Named(n) => n.clone(),
            TypeRef::NonNull(t) => format!("{}!", t.gql()),
            TypeRef::List(t) => format!("[{}]", t.gql()),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}

#[derive(Debug, Clone)]
pub struct FieldDef {
    pub name: String,
    pub ty: TypeRef,
    pub desc: Option<String>,
    pub deprecated: bool,
}

#[derive(Debug, Clone)]
pub struct TypeDef {
    pub name: String,
    pub kind: Kind,
    pub desc: Option<String>,
    pub fields: Vec<FieldDef>,
    /// Interfaces and unions
    pub possible: Vec<String>,
    pub interfaces: Vec<String>,
    pub values: Vec<String>,
}

impl TypeDef {
    pub fn new(name: &str, kind: Kind) -> TypeDef {
        TypeDef {
            name: name.to_string(),
            kind,
            desc: None,
            fields: Vec::new(),
            possible: Vec::new(),
            interfaces: Vec::new(),
            values: Vec::new(),
        }
    }
    pub fn field(&self, name: &str) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.name == name)
    }
    pub fn is_composite(&self) -> bool {
        matches!(self.kind, Kind::Object | Kind::Interface | Kind::Union)
    }
}

#[derive(Debug, Clone)]
pub struct Schema {
    pub types: Vec<TypeDef>,
    /// Names of the root types
    pub query: String,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
}

impl Default for Schema {
    fn default() -> Schema {
        Schema {
            types: Vec::new(),
            query: "Query".into(),
            mutation: None,
            subscription: None,
        }
    }
}

pub const BUILTIN: [&str; 5] = ["String", "Int", "ID", "Boolean", "Float"];

impl Schema {
    pub fn get(&self, name: &str) -> Option<&TypeDef> {
        self.types.iter().find(|t| t.name == name)
    }
    pub fn get_mut(&mut self, name: &str) -> Option<&mut TypeDef> {
        self.types.iter_mut().find(|t| t.name == name)
    }
    pub fn roots(&self) -> Vec<String> {
        let mut roots = vec![self.query.clone()];
        roots.extend(self.mutation.clone());
        roots.extend(self.subscription.clone());
        roots
    }
    pub fn kind(&self, name: &str) -> Kind {
        self.get(name).map(|t| t.kind).unwrap_or(Kind::Scalar)
    }
    pub fn is_composite(&self, name: &str) -> bool {
        self.get(name).map_or(false, |t| t.is_composite())
    }
    /// Object types a value of the type can have
    pub fn possible(&self, name: &str) -> BTreeSet<String> {
        match self.get(name) {
            Some(t) if t.kind == Kind::Object => std::iter::once(name.to_string()).collect(),
            Some(t) => t.possible.iter().cloned().collect(),
            None => BTreeSet::new(),
        }
    }
    pub fn overlap(&self, a: &str, b: &str) -> bool {
        let pa = self.possible(a);
        self.possible(b).iter().any(|t| pa.contains(t))
    }
    pub fn names_of(&self, kind: Kind) -> Vec<String> {
        self.types
            .iter()
            .filter(|t| t.kind == kind)
            .map(|t| t.name.clone())
            .collect()
    }
    pub fn composites(&self) -> Vec<String> {
        self.types
            .iter()
            .filter(|t| t.is_composite())
            .map(|t| t.name.clone())
            .collect()
    }
    /// `__typename` or a declared field
    pub fn field<'s>(&'s self, parent: &str, name: &str) -> Option<&'s FieldDef> {
        self.get(parent).and_then(|t| t.field(name))
    }

    pub fn type_ref_json(&self, t: &TypeRef) -> Value {
        match t {
            TypeRef::NonNull(inner) => {
                json!({"kind": "NON_NULL", "name": null, "ofType": self.type_ref_json(inner)})
            }
            TypeRef::List(inner) => {
                json!({"kind": "LIST", "name": null, "ofType": self.type_ref_json(inner)})
            }
            TypeRef::Named(n) => json!({"kind": kind_name(self.kind(n)), "name": n, "ofType": null}),
        }
    }

    pub fn json(&self) -> Value {
        let types: Vec<Value> = self.types.iter().map(|t| self.type_json(t)).collect();
        json!({"data": {"__schema": {
            "queryType": {"name": self.query},
            "mutationType": self.mutation.as_ref().map(|n| json!({"name": n})),
            "subscriptionType": self.subscription.as_ref().map(|n| json!({"name": n})),
            "types": types,
            "directives": [],
        }}})
    }

    fn field_json(&self, f: &FieldDef, input: bool) -> Value {
        if input {
            let mut v = json!({
                "name": f.name, "description": f.desc,
                "type": self.type_ref_json(&f.ty), "defaultValue": null,
            });
            if f.deprecated {
                v["isDeprecated"] = json!(true);
            }
            v
        } else {
            json!({
                "name": f.name, "description": f.desc, "args": [],
                "type": self.type_ref_json(&f.ty), "isDeprecated": f.deprecated,
                "deprecationReason": if f.deprecated { json!("old") } else { Value::Null },
            })
        }
    }

    fn type_json(&self, t: &TypeDef) -> Value {
        let refs = |names: &[String]| -> Value {
            names
                .iter()
                .map(|n| json!({"kind": kind_name(self.kind(n)), "name": n, "ofType": null}))
                .collect()
        };
        let has_fields = matches!(t.kind, Kind::Object | Kind::Interface);
        json!({
            "kind": kind_name(t.kind),
            "name": t.name,
            "description": t.desc,
            "fields": if has_fields {
                t.fields.iter().map(|f| self.field_json(f, false)).collect()
            } else { Value::Null },
            "inputFields": if t.kind == Kind::Input {
                t.fields.iter().map(|f| self.field_json(f, true)).collect()
            } else { Value::Null },
            "interfaces": if has_fields { refs(&t.interfaces) } else { Value::Null },
            "enumValues": if t.kind == Kind::Enum {
                t.values.iter().map(|v| json!({
                    "name": v, "description": null, "isDeprecated": false, "deprecationReason": null,
                })).collect()
            } else { Value::Null },
            "possibleTypes": if matches!(t.kind, Kind::Interface | Kind::Union) {
                refs(&t.possible)
            } else { Value::Null },
        })
    }

    /// Readable form for samples
    pub fn sdl(&self) -> String {
        let mut out = String::new();
        for t in &self.types {
            if BUILTIN.contains(&t.name.as_str()) {
                continue;
            }
            let fields = t
                .fields
                .iter()
                .map(|f| {
                    format!(
                        "{}: {}{}",
                        f.name,
                        f.ty.gql(),
                        if f.deprecated { " @deprecated" } else { "" }
                    )
                })
                .collect::<Vec<_>>()
                .join(", ");
            let line = match t.kind {
                Kind::Scalar => format!("scalar {}", t.name),
                Kind::Object => format!(
                    "type {}{} {{ {fields} }}",
                    t.name,
                    if t.interfaces.is_empty() {
                        String::new()
                    } else {
                        format!(" implements {}", t.interfaces.join(" & "))
                    }
                ),
                Kind::Interface => format!(
                    "interface {}{} {{ {fields} }}",
                    t.name,
                    if t.interfaces.is_empty() {
                        String::new()
                    } else {
                        format!(" implements {}", t.interfaces.join(" & "))
                    }
                ),
                Kind::Union => format!("union {} = {}", t.name, t.possible.join(" | ")),
                Kind::Enum => format!("enum {} {{ {} }}", t.name, t.values.join(" ")),
                Kind::Input => format!("input {} {{ {fields} }}", t.name),
            };
            out.push_str(&line);
            out.push('\n');
        }
        out
    }
}

pub fn kind_name(kind: Kind) -> &'static str {
    match kind {
        Kind::Scalar => "SCALAR",
        Kind::Object => "OBJECT",
        Kind::Interface => "INTERFACE",
        Kind::Union => "UNION",
        Kind::Enum => "ENUM",
        Kind::Input => "INPUT_OBJECT",
    }
}

#[derive(Debug, Clone)]
pub struct SchemaOptions {
    /// Chance in percent that a field, input field or enum is described
    pub descriptions: u32,
    pub deprecations: u32,
    /// Interface fields are implemented with stricter types at times
    pub covariant: bool,
    /// Names with underscores
    pub underscores: bool,
    pub max_lists: usize,
    /// Implementations carry the descriptions and deprecations of the interface
    pub same_docs: bool,
    pub mutation: u32,
    /// Descriptions are drawn with this
    pub describe: fn(&mut Tape<'_>) -> String,
    /// A little larger
    pub big: bool,
    /// Much larger in some respects
    pub more: More,
}

/// How much more there is of each
#[derive(Debug, Clone, Default)]
pub struct More {
    pub objects: usize,
    pub members: usize,
    pub fields: usize,
    pub values: usize,
    pub inputs: usize,
}

impl Default for SchemaOptions {
    fn default() -> Self {
        SchemaOptions {
            descriptions: 25,
            deprecations: 15,
            covariant: true,
            underscores: false,
            max_lists: 3,
            same_docs: false,
            mutation: 50,
            describe: plain_description,
            big: false,
            more: More::default(),
        }
    }
}

pub fn plain_description(tape: &mut Tape<'_>) -> String {
    let words = ["The", "name", "of", "thing", "a", "value", "(legacy)", "v2", "don't", "use: this."];
    let lines = 1 + if tape.chance(30) { tape.range(1, 2) } else { 0 };
    (0..lines)
        .map(|_| {
            let n = tape.range(1, 4);
            (0..n).map(|_| *tape.pick(&words)).collect::<Vec<_>>().join(" ")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

const OBJECT_NAMES: [&str; 14] = [
    "User", "Post", "Comment", "Org", "Tag", "Item", "Event", "File", "Group", "Page", "user", "A",
    "Node1", "PostConnection",
];
const INTERFACE_NAMES: [&str; 6] = ["Node", "Entity", "Actor", "Ownable", "Named", "I"];
const UNION_NAMES: [&str; 5] = ["SearchResult", "Media", "Target", "U", "AnyThing"];
const ENUM_NAMES: [&str; 6] = ["Status", "Color", "Role", "Direction", "E", "OrderBy"];
const INPUT_NAMES: [&str; 7] = [
    "UserInput", "Filter", "OrderInput", "PageInput", "Where", "In", "Attributes",
];
const SCALAR_NAMES: [&str; 5] = ["DateTime", "URL", "JSONBlob", "Money", "Any"];
const FIELD_NAMES: [&str; 40] = [
    "id", "name", "title", "author", "node", "items", "edges", "count", "kind", "status", "parent",
    "children", "owner", "meta", "value", "flag", "createdAt", "url", "tags", "best", "x", "y",
    "type", "query", "fragment", "default", "class", "constructor", "toString", "input", "on1",
    "length", "Data", "a1", "ID", "nodeIdX", "Where", "In", "Status", "User",
];
const UNDERSCORED: [&str; 8] = ["a_b", "_id", "a_", "b_c", "node_id", "x_y_z", "a", "b"];
const ENUM_VALUES: [&str; 14] = [
    "ACTIVE", "CLOSED", "RED", "green", "Blue", "ASC", "DESC", "default", "A", "B1", "_X", "IN_PROGRESS",
    "constructor", "Zz",
];

fn unique<'a>(
    tape: &mut Tape<'_>,
    pool: &[&'a str],
    used: &mut BTreeSet<String>,
    suffix: &str,
) -> String {
    let base = *tape.pick(pool);
    let mut name = base.to_string();
    if tape.chance(7) {
        // Only differs in its case from another one
        let others: Vec<&str> = pool.iter().copied().filter(|p| used.contains(*p)).collect();
        if !others.is_empty() {
            let other = *tape.pick(&others);
            name = match tape.below(3) {
                0 => other.to_uppercase(),
                1 => other.to_lowercase(),
                _ => {
                    let (first, rest) = other.split_at(1);
                    if first.chars().all(char::is_uppercase) {
                        first.to_lowercase() + rest
                    } else {
                        first.to_uppercase() + rest
                    }
                }
            };
            if ["any", "in"].contains(&name.as_str()) {
                name = base.to_string();
            }
        }
    }
    let base = name.clone();
    let mut n = 2;
    while used.contains(&name) {
        name = format!("{base}{suffix}{n}");
        n += 1;
    }
    used.insert(name.clone());
    name
}

/// Puts wrappers around a named type
pub fn wrap(tape: &mut Tape<'_>, base: &str, max_lists: usize) -> TypeRef {
    let mut t = TypeRef::named(base);
    if tape.chance(50) {
        t = t.non_null();
    }
    let lists = if tape.chance(35) {
        1 + if max_lists > 1 && tape.chance(35) {
            tape.range(1, max_lists - 1)
        } else {
            0
        }
    } else {
        0
    };
    for _ in 0..lists.min(max_lists) {
        t = t.list();
        if tape.chance(50) {
            t = t.non_null();
        }
    }
    t
}

fn leaf_name(tape: &mut Tape<'_>, schema: &Schema) -> String {
    let mut pool: Vec<String> = BUILTIN.iter().map(|s| s.to_string()).collect();
    for kind in [Kind::Enum, Kind::Scalar] {
        let names: Vec<String> = schema
            .names_of(kind)
            .into_iter()
            .filter(|n| !BUILTIN.contains(&n.as_str()))
            .collect();
        for n in names {
            pool.push(n.clone());
            pool.push(n);
        }
    }
    pool[tape.below(pool.len())].clone()
}

fn describe(tape: &mut Tape<'_>, options: &SchemaOptions) -> Option<String> {
    if tape.chance(options.descriptions) {
        Some((options.describe)(tape))
    } else {
        None
    }
}

/// There are not enough names for types with many fields
fn field_name(tape: &mut Tape<'_>, pool: &[&str], index: usize) -> String {
    let name = tape.pick(pool).to_string();
    if index < 8 {
        name
    } else {
        format!("{name}{index}")
    }
}

pub fn gen_schema(tape: &mut Tape<'_>, options: &SchemaOptions) -> Schema {
    let mut schema = Schema::default();
    let mut used: BTreeSet<String> = BUILTIN.iter().map(|s| s.to_string()).collect();
    for name in ["Query", "Mutation", "Subscription"] {
        used.insert(name.into());
    }
    // Often not the usual names
    let usual = tape.chance(75);
    let mut root = |tape: &mut Tape<'_>, name: &str| {
        if usual || tape.chance(30) {
            return name.to_string();
        }
        let unrelated = tape.chance(30).then_some(match name {
            "Query" => "Reads",
            "Mutation" => "write_all",
            _ => "Live",
        });
        if let Some(other) = unrelated.filter(|other| !used.contains(*other)) {
            used.insert(other.to_string());
            return other.to_string();
        }
        let other = format!("{}{name}{}", tape.pick(&["Root", "The", "", "_"]), tape.pick(&["Root", "Type", "s", "_"]));
        used.insert(other.clone());
        other
    };
    schema.query = root(tape, "Query");
    if tape.chance(options.mutation) {
        schema.mutation = Some(root(tape, "Mutation"));
    }
    if tape.chance(30) {
        schema.subscription = Some(root(tape, "Subscription"));
    }
    let extra = usize::from(options.big) * 3;
    let underscores = options.underscores;
    let suffix = if underscores { "_" } else { "" };

    for b in BUILTIN {
        schema.types.push(TypeDef::new(b, Kind::Scalar));
    }
    for _ in 0..tape.range(0, 2) {
        let n = unique(tape, &SCALAR_NAMES, &mut used, suffix);
        schema.types.push(TypeDef::new(&n, Kind::Scalar));
    }
    for _ in 0..tape.range(1, 2 + extra / 2) {
        let n = unique(tape, &ENUM_NAMES, &mut used, suffix);
        let mut t = TypeDef::new(&n, Kind::Enum);
        let mut values = BTreeSet::new();
        for _ in 0..tape.range(1, 4) + options.more.values {
            t.values.push(unique(tape, &ENUM_VALUES, &mut values, suffix));
        }
        t.desc = describe(tape, options);
        schema.types.push(t);
    }
    // Objects and interfaces by name first, so that fields can refer to each other
    let mut objects: Vec<String> = (0..tape.range(2, 6 + extra) + options.more.objects)
        .map(|_| unique(tape, &OBJECT_NAMES, &mut used, suffix))
        .collect();
    if !usual && tape.chance(60) {
        // Usual names of root types are then those of others
        for name in ["Query", "Mutation", "Subscription"] {
            if !schema.roots().iter().any(|r| r == name) && tape.chance(60) {
                objects.push(name.to_string());
            }
        }
    }
    let objects = objects;
    let interfaces: Vec<String> = (0..tape.range(0, 3 + extra / 3))
        .map(|_| unique(tape, &INTERFACE_NAMES, &mut used, suffix))
        .collect();
    let unions: Vec<String> = (0..tape.range(0, 2))
        .map(|_| unique(tape, &UNION_NAMES, &mut used, suffix))
        .collect();

    // Interface i may implement interfaces before it
    let mut implemented: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (i, name) in interfaces.iter().enumerate() {
        let mut list: Vec<String> = Vec::new();
        for earlier in &interfaces[..i] {
            if tape.chance(25) {
                for up in implemented[earlier].iter().chain(std::iter::once(earlier)) {
                    if !list.contains(up) {
                        list.push(up.clone());
                    }
                }
            }
        }
        implemented.insert(name.clone(), list);
    }
    for name in objects.iter() {
        let mut list: Vec<String> = Vec::new();
        for interface in &interfaces {
            if tape.chance(50) {
                for up in implemented[interface].iter().chain(std::iter::once(interface)) {
                    if !list.contains(up) {
                        list.push(up.clone());
                    }
                }
            }
        }
        implemented.insert(name.clone(), list);
    }
    // Every interface has an implementation
    for (i, interface) in interfaces.iter().enumerate() {
        if !objects.iter().any(|o| implemented[o].contains(interface)) {
            let object = &objects[i % objects.len()];
            let ups = implemented[interface].clone();
            let list = implemented.get_mut(object).unwrap();
            for up in ups.into_iter().chain(std::iter::once(interface.clone())) {
                if !list.contains(&up) {
                    list.push(up);
                }
            }
        }
    }
    let mut composite: Vec<String> = objects.clone();
    composite.extend(interfaces.iter().cloned());
    composite.extend(unions.iter().cloned());
    composite.extend(interfaces.iter().cloned());
    composite.extend(unions.iter().cloned());

    for name in &interfaces {
        let mut t = TypeDef::new(name, Kind::Interface);
        t.interfaces = implemented[name].clone();
        t.possible = objects
            .iter()
            .filter(|o| implemented[*o].contains(name))
            .cloned()
            .collect();
        schema.types.push(t);
    }
    for name in &unions {
        let mut t = TypeDef::new(name, Kind::Union);
        let mut members = objects.clone();
        tape.shuffle(&mut members);
        members.truncate(tape.range(1, objects.len().min(4)) + options.more.members);
        t.possible = members;
        schema.types.push(t);
    }
    for name in &objects {
        let mut t = TypeDef::new(name, Kind::Object);
        t.interfaces = implemented[name].clone();
        schema.types.push(t);
    }

    // One type per field name for all interfaces, so that implementing several is consistent
    let mut interface_fields: BTreeMap<String, FieldDef> = BTreeMap::new();
    let pool: Vec<&str> = if underscores {
        UNDERSCORED.iter().chain(FIELD_NAMES[..8].iter()).copied().collect()
    } else {
        FIELD_NAMES.to_vec()
    };
    let gen_field = |tape: &mut Tape<'_>, schema: &Schema, name: &str, composite_chance: u32| {
        let base = if tape.chance(composite_chance) {
            composite[tape.below(composite.len())].clone()
        } else {
            leaf_name(tape, schema)
        };
        FieldDef {
            name: name.to_string(),
            ty: wrap(tape, &base, options.max_lists),
            desc: describe(tape, options),
            deprecated: tape.chance(options.deprecations),
        }
    };
    for name in &interfaces {
        let mut fields: Vec<FieldDef> = Vec::new();
        let inherited: Vec<FieldDef> = implemented[name]
            .iter()
            .flat_map(|up| schema.get(up).unwrap().fields.clone())
            .collect();
        for f in inherited {
            if !fields.iter().any(|g| g.name == f.name) {
                fields.push(f);
            }
        }
        for i in 0..tape.range(1, 4) + options.more.fields {
            let field_name = field_name(tape, &pool, i);
            if fields.iter().any(|g| g.name == field_name) {
                continue;
            }
            let field = match interface_fields.get(&field_name) {
                Some(f) => f.clone(),
                None => {
                    let f = gen_field(tape, &schema, &field_name, 40);
                    interface_fields.insert(field_name.clone(), f.clone());
                    f
                }
            };
            fields.push(field);
        }
        schema.get_mut(name).unwrap().fields = fields;
    }
    for name in &objects {
        let mut fields: Vec<FieldDef> = Vec::new();
        for up in &implemented[name] {
            for f in schema.get(up).unwrap().fields.clone() {
                if fields.iter().any(|g| g.name == f.name) {
                    continue;
                }
                let mut f = f;
                if options.covariant {
                    if !f.ty.is_non_null() && tape.chance(15) {
                        f.ty = f.ty.non_null();
                    }
                    let base = f.ty.base().to_string();
                    if matches!(schema.kind(&base), Kind::Interface | Kind::Union) && tape.chance(30) {
                        let possible: Vec<String> = schema.possible(&base).into_iter().collect();
                        let narrow = possible[tape.below(possible.len())].clone();
                        f.ty = f.ty.with_base(&narrow);
                    }
                }
                if !options.same_docs && tape.chance(30) {
                    f.desc = describe(tape, options);
                    f.deprecated = tape.chance(options.deprecations);
                }
                fields.push(f);
            }
        }
        for i in 0..tape.range(1, 4) + options.more.fields {
            let field_name = field_name(tape, &pool, i);
            if fields.iter().any(|g| g.name == field_name) {
                continue;
            }
            let mut f = gen_field(tape, &schema, &field_name, 40);
            // Often of the same shape as one of another type, so that both fit in the same place
            if schema.is_composite(f.ty.base()) && tape.chance(30) {
                let others: Vec<TypeRef> = objects
                    .iter()
                    .flat_map(|o| schema.get(o).unwrap().fields.iter())
                    .filter(|g| schema.is_composite(g.ty.base()))
                    .map(|g| g.ty.clone())
                    .collect();
                if !others.is_empty() {
                    f.ty = tape.pick(&others).with_base(f.ty.base());
                }
            }
            fields.push(f);
        }
        schema.get_mut(name).unwrap().fields = fields;
    }
    // Input objects
    let inputs: Vec<String> = (0..tape.range(1, 3 + extra / 3) + options.more.inputs)
        .map(|_| unique(tape, &INPUT_NAMES, &mut used, suffix))
        .collect();
    for name in &inputs {
        schema.types.push(TypeDef::new(name, Kind::Input));
    }
    for name in &inputs {
        let mut fields: Vec<FieldDef> = Vec::new();
        for i in 0..tape.range(1, 4) + options.more.fields {
            let field_name = field_name(tape, &pool, i);
            if fields.iter().any(|g| g.name == field_name) {
                continue;
            }
            let base = if tape.chance(45) {
                inputs[tape.below(inputs.len())].clone()
            } else {
                leaf_name(tape, &schema)
            };
            // Like its type
            let alike = tape.chance(8) && !fields.iter().any(|g| g.name == base);
            let field_name = if alike { base.clone() } else { field_name };
            let mut ty = wrap(tape, &base, options.max_lists);
            if schema.kind(&base) == Kind::Input && ty.lists() == 0 {
                // A non-null cycle without lists would have no values
                ty = TypeRef::named(&base);
            }
            fields.push(FieldDef {
                name: field_name,
                ty,
                desc: describe(tape, options),
                deprecated: tape.chance(options.deprecations / 2),
            });
        }
        schema.get_mut(name).unwrap().fields = fields;
    }
    // Roots
    for root in schema.roots() {
        let mut t = TypeDef::new(&root, Kind::Object);
        for i in 0..tape.range(3, 7) + options.more.fields {
            let field_name = field_name(tape, &pool, i);
            if t.fields.iter().any(|g| g.name == field_name) {
                continue;
            }
            let f = gen_field(tape, &schema, &field_name, 75);
            t.fields.push(f);
        }
        schema.types.push(t);
    }
    schema
}
