//! The reference model: what the generated types have to say, derived from the specification's
//! field collection, one runtime object type at a time.

use crate::doc::{declared, Doc, Fragments, Sel};
use crate::schema::{Kind, Schema, TypeRef, BUILTIN};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Default)]
pub struct Config {
    pub custom_scalars: bool,
    pub scalar_prefix: Option<String>,
    pub prefix: Option<String>,
    pub globals: Option<String>,
    pub node_module: Option<String>,
    pub mutable: bool,
    pub deprecations: bool,
    pub threads: Option<usize>,
}

impl Config {
    pub fn args(&self) -> Vec<String> {
        let mut a = Vec::new();
        if self.custom_scalars {
            a.push("--use-custom-scalars".to_string());
        }
        let mut pair = |flag: &str, value: &Option<String>| {
            if let Some(v) = value {
                a.push(flag.to_string());
                a.push(v.clone());
            }
        };
        pair("--custom-scalar-prefix", &self.scalar_prefix);
        pair("--root-dir-import-prefix", &self.prefix);
        pair("--global-types-module-name", &self.globals);
        pair("--typed-graphql-documentnode-module-name", &self.node_module);
        pair("--num-threads", &self.threads.map(|t| t.to_string()));
        if self.mutable {
            a.push("--disable-readonly-types".to_string());
        }
        if self.deprecations {
            a.push("--show-deprecation-warnings".to_string());
        }
        a
    }
    pub fn globals_module(&self) -> String {
        self.globals.clone().unwrap_or_else(|| "graphql-globals".into())
    }
    /// Relative to the root
    pub fn globals_file(&self) -> String {
        let module = self.globals_module();
        let path = match &self.prefix {
            Some(p) => module.strip_prefix(p.as_str()).map(String::from).unwrap_or(module),
            None => module,
        };
        let last = path.rsplit('/').next().unwrap_or(&path);
        if last.trim_start_matches('.').contains('.') {
            path
        } else {
            format!("{path}.ts")
        }
    }
    pub fn node_module_name(&self) -> String {
        self.node_module
            .clone()
            .unwrap_or_else(|| "@notarize/qlc-cli/typed-documentnode".into())
    }
    pub fn scalar(&self, name: &str) -> String {
        match name {
            "String" | "ID" => "string".into(),
            "Int" | "Float" => "number".into(),
            "Boolean" => "boolean".into(),
            custom if !self.custom_scalars => {
                let _ = custom;
                "any".into()
            }
            custom => format!("{}{custom}", self.scalar_prefix.as_deref().unwrap_or("")),
        }
    }
    /// Type a leaf is written as
    pub fn leaf(&self, schema: &Schema, name: &str) -> String {
        match schema.kind(name) {
            Kind::Enum | Kind::Input => name.to_string(),
            _ => self.scalar(name),
        }
    }
}

#[derive(Debug, Clone)]
pub enum Shape {
    TypeName,
    Leaf(String),
    Obj(ObjShape),
}

#[derive(Debug, Clone)]
pub struct Prop {
    pub ty: TypeRef,
    pub shape: Shape,
    /// The object type declares fewer possible types than what the field was selected on
    pub narrowed: bool,
    /// The object type itself declares the field non-null
    pub own_non_null: bool,
    /// All declarations the field was selected on are non-null, and its own
    pub all_non_null: bool,
    /// Description and deprecation of each declaration the field was selected on
    pub docs: Vec<(Option<String>, bool)>,
}

#[derive(Debug, Clone, Default)]
pub struct ObjShape {
    /// One for each object type the schema allows here
    pub alts: BTreeMap<String, BTreeMap<String, Prop>>,
}

type Groups<'a> = Vec<(String, &'a [Sel])>;

pub fn doc_shape(schema: &Schema, fragments: &Fragments<'_>, doc: &Doc) -> ObjShape {
    let parent = doc.static_type().to_string();
    let required = schema.possible(&parent);
    obj_shape(schema, fragments, &[(parent, doc.sels.as_slice())].to_vec(), required)
}

fn obj_shape(
    schema: &Schema,
    fragments: &Fragments<'_>,
    groups: &Groups<'_>,
    required: BTreeSet<String>,
) -> ObjShape {
    let alts = required
        .into_iter()
        .map(|t| {
            let props = props_for(schema, fragments, groups, &t);
            (t, props)
        })
        .collect();
    ObjShape { alts }
}

struct Collected<'a> {
    parent: String,
    name: String,
    sels: &'a [Sel],
}

fn collect<'a>(
    schema: &Schema,
    fragments: &Fragments<'a>,
    static_type: &str,
    sels: &'a [Sel],
    runtime: &str,
    out: &mut BTreeMap<String, Vec<Collected<'a>>>,
) {
    for s in sels {
        match s {
            Sel::Field(f) => out.entry(f.key().to_string()).or_default().push(Collected {
                parent: static_type.to_string(),
                name: f.name.clone(),
                sels: &f.sels,
            }),
            Sel::Inline { on, sels, .. } => {
                if schema.possible(on).contains(runtime) {
                    collect(schema, fragments, on, sels, runtime, out);
                }
            }
            Sel::Spread { name, .. } => {
                if let Some(doc) = fragments.get(name) {
                    let doc: &'a Doc = doc;
                    if schema.possible(doc.static_type()).contains(runtime) {
                        collect(schema, fragments, doc.static_type(), &doc.sels, runtime, out);
                    }
                }
            }
        }
    }
}

fn props_for(
    schema: &Schema,
    fragments: &Fragments<'_>,
    groups: &Groups<'_>,
    runtime: &str,
) -> BTreeMap<String, Prop> {
    let mut collected = BTreeMap::new();
    for (static_type, sels) in groups {
        if schema.possible(static_type).contains(runtime) {
            collect(schema, fragments, static_type, sels, runtime, &mut collected);
        }
    }
    collected
        .into_iter()
        .map(|(key, fields)| {
            let first = &fields[0];
            let ty = declared(schema, &first.parent, &first.name).expect("declared field");
            let mut narrowed = false;
            let shape = if first.name == "__typename" {
                Shape::TypeName
            } else if schema.is_composite(ty.base()) {
                let sub: Groups<'_> = fields
                    .iter()
                    .map(|f| {
                        let t = declared(schema, &f.parent, &f.name).expect("declared field");
                        (t.base().to_string(), f.sels)
                    })
                    .collect();
                // The runtime type's own declaration decides what can be returned
                let own = declared(schema, runtime, &first.name).unwrap_or_else(|| ty.clone());
                let possible = schema.possible(own.base());
                narrowed = possible != schema.possible(ty.base());
                Shape::Obj(obj_shape(schema, fragments, &sub, possible))
            } else {
                Shape::Leaf(ty.base().to_string())
            };
            let own_non_null = declared(schema, runtime, &first.name).map_or(ty.is_non_null(), |t| t.is_non_null());
            let all_non_null = own_non_null
                && fields
                    .iter()
                    .all(|f| declared(schema, &f.parent, &f.name).map_or(false, |t| t.is_non_null()));
            let docs = fields
                .iter()
                .map(|f| match schema.field(&f.parent, &f.name) {
                    Some(d) => (d.desc.clone(), d.deprecated),
                    None => (None, false),
                })
                .collect();
            (
                key,
                Prop {
                    ty,
                    shape,
                    narrowed,
                    own_non_null,
                    all_non_null,
                    docs,
                },
            )
        })
        .collect()
}

/// Enums the result type mentions
pub fn enums_of(schema: &Schema, shape: &ObjShape, out: &mut BTreeSet<String>) {
    for props in shape.alts.values() {
        for p in props.values() {
            match &p.shape {
                Shape::Leaf(name) if schema.kind(name) == Kind::Enum => {
                    out.insert(name.clone());
                }
                Shape::Obj(o) => enums_of(schema, o, out),
                _ => {}
            }
        }
    }
}

pub fn variable_globals(schema: &Schema, doc: &Doc) -> BTreeSet<String> {
    doc.vars
        .iter()
        .map(|v| v.ty.base().to_string())
        .filter(|n| matches!(schema.kind(n), Kind::Enum | Kind::Input))
        .collect()
}

/// Everything that used input objects reach
pub fn closure(schema: &Schema, used: &BTreeSet<String>) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<String> = used.iter().cloned().collect();
    while let Some(name) = todo.pop() {
        if !out.insert(name.clone()) {
            continue;
        }
        if schema.kind(&name) == Kind::Input {
            for f in &schema.get(&name).unwrap().fields {
                if matches!(schema.kind(f.ty.base()), Kind::Enum | Kind::Input) {
                    todo.push(f.ty.base().to_string());
                }
            }
        }
    }
    out
}

pub fn custom_scalars(schema: &Schema) -> Vec<String> {
    schema
        .names_of(Kind::Scalar)
        .into_iter()
        .filter(|n| !BUILTIN.contains(&n.as_str()))
        .collect()
}

/// Whether two places of the document could get the same type name, conservatively.
pub fn may_collide(main: &str, shape: &ObjShape, others: &BTreeSet<String>) -> bool {
    fn names(base: &str, shape: &ObjShape, out: &mut Vec<String>) -> bool {
        if out.len() > 20_000 {
            return false;
        }
        out.push(base.to_string());
        let mut bases: Vec<(String, Option<&String>)> = vec![(base.to_string(), None)];
        for t in shape.alts.keys() {
            let n = format!("{base}_{t}");
            out.push(n.clone());
            bases.push((n, Some(t)));
        }
        let other = format!("{base}_$$other");
        out.push(other.clone());
        bases.push((other, None));
        for (b, only) in bases {
            let mut keys: BTreeMap<&String, Vec<&ObjShape>> = BTreeMap::new();
            for (t, props) in &shape.alts {
                if only.map_or(false, |o| o != t) {
                    continue;
                }
                for (k, p) in props {
                    if let Shape::Obj(o) = &p.shape {
                        keys.entry(k).or_default().push(o);
                    }
                }
            }
            for (k, shapes) in keys {
                // One place, whatever the runtime type
                let mut merged = ObjShape::default();
                for s in shapes {
                    for (t, props) in &s.alts {
                        merged.alts.entry(t.clone()).or_default().extend(props.clone());
                    }
                }
                if !names(&format!("{b}_{k}"), &merged, out) {
                    return false;
                }
            }
        }
        true
    }
    let mut all = Vec::new();
    if !names(main, shape, &mut all) {
        return true;
    }
    let count = all.len();
    let set: BTreeSet<String> = all.into_iter().collect();
    set.len() != count || set.iter().any(|n| others.contains(n))
}
