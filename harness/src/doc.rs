//! Documents: abstract syntax, generation of valid documents over a schema, printing with layout.

use crate::schema::{wrap, Kind, Schema, TypeRef, BUILTIN};
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Debug, Clone)]
pub struct Field {
    pub id: u32,
    pub alias: Option<String>,
    pub name: String,
    pub sels: Vec<Sel>,
}

impl Field {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}

#[derive(Debug, Clone)]
pub enum Sel {
    Field(Field),
    Inline { id: u32, on: String, sels: Vec<Sel> },
    Spread { id: u32, name: String },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DocKind {
    Query,
    Mutation,
    Subscription,
    Fragment(String),
}

#[derive(Debug, Clone)]
pub struct Var {
    pub id: u32,
    pub name: String,
    pub ty: TypeRef,
    pub default: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Import {
    pub path: String,
    pub tail: String,
    /// Document meant
    pub target: usize,
}

#[derive(Debug, Clone)]
pub struct Doc {
    pub kind: DocKind,
    /// The type selections are made on
    pub root: String,
    pub name: Option<String>,
    pub vars: Vec<Var>,
    pub sels: Vec<Sel>,
    /// Relative to the root directory, with `.graphql`
    pub path: String,
    pub imports: Vec<Import>,
}

impl DocKind {
    /// The type selections are made on: without a type of their own, subscriptions select from
    /// that of queries
    pub fn root(&self, schema: &Schema) -> String {
        match self {
            DocKind::Query => schema.query.clone(),
            DocKind::Mutation => schema.mutation.clone().unwrap_or_default(),
            DocKind::Subscription => schema.subscription.clone().unwrap_or_else(|| schema.query.clone()),
            DocKind::Fragment(on) => on.clone(),
        }
    }
}

impl Doc {
    pub fn is_fragment(&self) -> bool {
        matches!(self.kind, DocKind::Fragment(_))
    }
    /// The type selections are made on
    pub fn static_type(&self) -> &str {
        &self.root
    }
    pub fn main_name(&self) -> &str {
        self.name.as_deref().unwrap_or(match self.kind {
            DocKind::Query => "Query",
            DocKind::Mutation => "Mutation",
            DocKind::Subscription => "Subscription",
            DocKind::Fragment(_) => "",
        })
    }
    pub fn output(&self) -> String {
        format!("{}.d.ts", self.path)
    }
}

pub fn walk<'a>(sels: &'a [Sel], f: &mut dyn FnMut(&'a Sel)) {
    for s in sels {
        f(s);
        match s {
            Sel::Field(field) => walk(&field.sels, f),
            Sel::Inline { sels, .. } => walk(sels, f),
            Sel::Spread { .. } => {}
        }
    }
}

pub fn spread_names(sels: &[Sel]) -> BTreeSet<String> {
    let mut names = BTreeSet::new();
    walk(sels, &mut |s| {
        if let Sel::Spread { name, .. } = s {
            names.insert(name.clone());
        }
    });
    names
}

/// Declared type of a field, with `__typename`
pub fn declared(schema: &Schema, parent: &str, field: &str) -> Option<TypeRef> {
    if field == "__typename" {
        return Some(TypeRef::named("__typename").non_null());
    }
    schema.field(parent, field).map(|f| f.ty.clone())
}

// ---------------------------------------------------------------------------------------------
// Merge validity

/// What has been selected at a place of the response, to keep documents valid
#[derive(Debug, Clone, Default)]
pub struct Registry {
    keys: BTreeMap<String, Entry>,
}

#[derive(Debug, Clone)]
struct Entry {
    shape: TypeRef,
    composite: bool,
    users: Vec<(String, String)>,
    sub: Registry,
}

pub type Fragments<'a> = BTreeMap<String, &'a Doc>;

impl Registry {
    /// Whether the field may be selected here, and if so notes it
    fn reserve(&mut self, schema: &Schema, parent: &str, key: &str, field: &str) -> bool {
        let Some(ty) = declared(schema, parent, field) else {
            return false;
        };
        let composite = schema.is_composite(ty.base());
        let shape = if composite { ty.with_base("") } else { ty };
        match self.keys.get_mut(key) {
            None => {
                self.keys.insert(
                    key.to_string(),
                    Entry {
                        shape,
                        composite,
                        users: vec![(parent.to_string(), field.to_string())],
                        sub: Registry::default(),
                    },
                );
                true
            }
            Some(entry) => {
                if entry.shape != shape || entry.composite != composite {
                    return false;
                }
                let compatible = entry.users.iter().all(|(p, f)| {
                    f == field
                        || (p != parent
                            && schema.kind(p) == Kind::Object
                            && schema.kind(parent) == Kind::Object)
                });
                if compatible {
                    let user = (parent.to_string(), field.to_string());
                    if !entry.users.contains(&user) {
                        entry.users.push(user);
                    }
                }
                compatible
            }
        }
    }

    /// Adds all selections; on conflict the registry is left half way
    pub fn add(
        &mut self,
        schema: &Schema,
        fragments: &Fragments<'_>,
        parent: &str,
        sels: &[Sel],
    ) -> bool {
        sels.iter().all(|s| match s {
            Sel::Field(f) => {
                self.reserve(schema, parent, f.key(), &f.name)
                    && (f.sels.is_empty() || {
                        let sub_type = declared(schema, parent, &f.name).unwrap();
                        let entry = self.keys.get_mut(f.key()).unwrap();
                        entry.sub.add(schema, fragments, sub_type.base(), &f.sels)
                    })
            }
            Sel::Inline { on, sels, .. } => self.add(schema, fragments, on, sels),
            Sel::Spread { name, .. } => match fragments.get(name) {
                Some(doc) => self.add(schema, fragments, doc.static_type(), &doc.sels),
                None => false,
            },
        })
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

#[derive(Debug, Clone)]
pub struct DocOptions {
    pub fragments: (usize, usize),
    pub operations: (usize, usize),
    pub depth: usize,
    pub width: usize,
    /// Selections of a document, roughly
    pub budget: usize,
    pub max_variables: usize,
    pub variables: bool,
    pub defaults: bool,
    pub subdirs: bool,
    pub underscores: bool,
    pub prefix: Option<String>,
    /// Chance of spreading a fragment where one fits
    pub spreads: u32,
    pub inlines: u32,
    pub aliases: u32,
    /// Always spell imports the same way
    pub plain_imports: bool,
}

impl Default for DocOptions {
    fn default() -> Self {
        DocOptions {
            fragments: (0, 3),
            operations: (1, 2),
            depth: 3,
            width: 4,
            budget: 30,
            max_variables: 4,
            variables: true,
            defaults: false,
            subdirs: true,
            underscores: false,
            prefix: None,
            spreads: 25,
            inlines: 20,
            aliases: 20,
            plain_imports: false,
        }
    }
}

const ALIASES: [&str; 12] = [
    "alias", "first", "other", "id", "name", "z", "aa", "renamed", "value", "nameOfThing", "kind", "T",
];
const ALIASES_UNDERSCORED: [&str; 6] = ["a_b", "_x", "a", "b", "c_", "a__b"];
const OPERATION_NAMES: [&str; 11] = [
    "GetUser", "Q", "ListItems", "update", "RemovePost", "OnEvent", "Search", "M1", "QVariables", "Query", "User",
];
const FRAGMENT_NAMES: [&str; 8] = [
    "UserFields", "F", "itemParts", "PostBits", "Common", "Deep", "Row", "on1",
];
const FILE_NAMES: [&str; 9] = [
    "query", "mutation", "fragment", "user-info", "a", "post.list", "Item", "x_y", "deep",
];
const DIRS: [&str; 6] = ["", "", "sub/", "sub/inner/", "other/", "other/with space/"];

pub struct Gen<'s> {
    pub schema: &'s Schema,
    pub options: &'s DocOptions,
    pub next_id: u32,
    budget: i32,
}

/// Upper bound of the size of the response type: what is selected, once for each object type that is
/// possible there
pub fn response_size(schema: &Schema, docs: &[Doc]) -> f64 {
    fn sum<'a>(
        schema: &Schema,
        fragments: &Fragments<'a>,
        known: &mut BTreeMap<&'a str, f64>,
        parent: &str,
        sels: &'a [Sel],
    ) -> f64 {
        sels.iter()
            .map(|s| match s {
                Sel::Field(f) if f.sels.is_empty() => 1.0,
                Sel::Field(f) => match declared(schema, parent, &f.name) {
                    Some(ty) => {
                        let possible = schema.possible(ty.base()).len() as f64;
                        1.0 + possible * sum(schema, fragments, known, ty.base(), &f.sels)
                    }
                    None => 1.0,
                },
                Sel::Inline { on, sels, .. } => sum(schema, fragments, known, on, sels),
                Sel::Spread { name, .. } => {
                    if let Some(size) = known.get(name.as_str()) {
                        return *size;
                    }
                    let Some(doc) = fragments.get(name.as_str()).copied() else {
                        return 0.0;
                    };
                    let size = sum(schema, fragments, known, doc.static_type(), &doc.sels);
                    known.insert(doc.main_name(), size);
                    size
                }
            })
            .sum()
    }
    let fragments: Fragments<'_> = docs
        .iter()
        .filter(|d| d.is_fragment())
        .map(|d| (d.main_name().to_string(), d))
        .collect();
    let mut known = BTreeMap::new();
    docs.iter()
        .map(|d| sum(schema, &fragments, &mut known, d.static_type(), &d.sels))
        .fold(0.0, f64::max)
}

pub fn sel_size(fragments: &Fragments<'_>, sels: &[Sel]) -> usize {
    sels.iter()
        .map(|s| match s {
            Sel::Field(f) => 1 + sel_size(fragments, &f.sels),
            Sel::Inline { sels, .. } => 1 + sel_size(fragments, sels),
            Sel::Spread { name, .. } => {
                1 + fragments.get(name).map_or(0, |d| sel_size(fragments, &d.sels))
            }
        })
        .sum()
}

impl<'s> Gen<'s> {
    pub fn new(schema: &'s Schema, options: &'s DocOptions) -> Self {
        Gen {
            schema,
            options,
            next_id: 1,
            budget: 0,
        }
    }
    pub fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }

    pub fn selections(
        &mut self,
        tape: &mut Tape<'_>,
        parent: &str,
        registry: &mut Registry,
        fragments: &Fragments<'_>,
        depth: usize,
    ) -> Vec<Sel> {
        let schema = self.schema;
        let mut out: Vec<Sel> = Vec::new();
        let count = tape.range(1, self.options.width);
        let typename = tape.chance(30);
        if typename {
            self.field(tape, parent, "__typename", registry, fragments, depth, &mut out);
        }
        for _ in 0..count {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            let roll = tape.below(100) as u32;
            if roll < self.options.spreads && !fragments.is_empty() {
                let fitting: Vec<&str> = fragments
                    .iter()
                    .filter(|(_, d)| schema.overlap(d.static_type(), parent))
                    .map(|(n, _)| n.as_str())
                    .collect();
                if !fitting.is_empty() {
                    let name = (*tape.pick(&fitting)).to_string();
                    let id = self.id();
                    let candidate = [Sel::Spread { id, name }];
                    let size = sel_size(fragments, &candidate) as i32;
                    let mut trial = registry.clone();
                    if size < self.budget && trial.add(schema, fragments, parent, &candidate) {
                        self.budget -= size / 2;
                        *registry = trial;
                        out.extend(candidate);
                    }
                    continue;
                }
            } else if roll < self.options.spreads + self.options.inlines && depth > 0 {
                let fitting: Vec<String> = schema
                    .composites()
                    .into_iter()
                    .filter(|t| schema.overlap(t, parent))
                    .collect();
                let other: Vec<String> = fitting.iter().filter(|t| *t != parent).cloned().collect();
                if other.is_empty() && !tape.chance(20) {
                    continue;
                }
                let on = if other.is_empty() || tape.chance(15) {
                    fitting[tape.below(fitting.len())].clone()
                } else {
                    other[tape.below(other.len())].clone()
                };
                let id = self.id();
                let sels = self.selections(tape, &on, registry, fragments, depth - 1);
                let twins: Vec<String> = other
                    .iter()
                    .filter(|t| **t != on && schema.kind(t) == Kind::Object)
                    .cloned()
                    .collect();
                let mut twinned = Vec::new();
                if !twins.is_empty() && schema.kind(&on) == Kind::Object && tape.chance(20) {
                    let targets = if tape.chance(50) && twins.len() <= 4 {
                        twins
                    } else {
                        vec![tape.pick(&twins).clone()]
                    };
                    for to in targets {
                        let id = self.id();
                        let sels = self.twin(tape, &on, &sels, &to, registry, fragments, depth - 1);
                        twinned.push(Sel::Inline { id, on: to, sels });
                    }
                }
                out.push(Sel::Inline { id, on, sels });
                out.extend(twinned);
                continue;
            }
            let fields: Vec<&crate::schema::FieldDef> = schema
                .get(parent)
                .unwrap()
                .fields
                .iter()
                .filter(|f| depth > 0 || !schema.is_composite(f.ty.base()))
                .collect();
            if fields.is_empty() {
                continue;
            }
            let name = fields[tape.below(fields.len())].name.clone();
            self.field(tape, parent, &name, registry, fragments, depth, &mut out);
        }
        if typename && out.len() > 1 {
            // Anywhere, not only in front
            let to = tape.below(out.len());
            let selection = out.remove(0);
            out.insert(to, selection);
        }
        if out.is_empty() {
            self.field(tape, parent, "__typename", registry, fragments, 0, &mut out);
        }
        out
    }

    /// Selections on another type that look the same from the outside: the same keys, but of other
    /// fields and types where possible
    #[allow(clippy::too_many_arguments)]
    fn twin(
        &mut self,
        tape: &mut Tape<'_>,
        from: &str,
        sels: &[Sel],
        to: &str,
        registry: &mut Registry,
        fragments: &Fragments<'_>,
        depth: usize,
    ) -> Vec<Sel> {
        let schema = self.schema;
        let mut out = Vec::new();
        for sel in sels {
            self.budget -= 1;
            match sel {
                Sel::Spread { .. } => {}
                Sel::Inline { on, sels, .. } => {
                    let fitting: Vec<String> = schema
                        .composites()
                        .into_iter()
                        .filter(|t| schema.kind(t) == schema.kind(on) && schema.overlap(t, to))
                        .collect();
                    if fitting.is_empty() || depth == 0 {
                        continue;
                    }
                    let new_on = fitting[tape.below(fitting.len())].clone();
                    let id = self.id();
                    let sels = self.twin(tape, on, sels, &new_on, registry, fragments, depth - 1);
                    out.push(Sel::Inline { id, on: new_on, sels });
                }
                Sel::Field(f) => {
                    let Some(ty) = declared(schema, from, &f.name) else {
                        continue;
                    };
                    let composite = schema.is_composite(ty.base());
                    let fitting: Vec<&str> = if f.name == "__typename" {
                        vec!["__typename"]
                    } else {
                        let fields = &schema.get(to).unwrap().fields;
                        let fits = |t: &TypeRef| {
                            *t == ty
                                || composite
                                    && schema.is_composite(t.base())
                                    && t.with_base("") == ty.with_base("")
                        };
                        fields.iter().filter(|g| fits(&g.ty)).map(|g| g.name.as_str()).collect()
                    };
                    if fitting.is_empty() || composite && depth == 0 {
                        continue;
                    }
                    let name = *tape.pick(&fitting);
                    if !registry.reserve(schema, to, f.key(), name) {
                        continue;
                    }
                    let id = self.id();
                    let sels = if composite {
                        let new_type = declared(schema, to, name).unwrap();
                        let mut sub = std::mem::take(&mut registry.keys.get_mut(f.key()).unwrap().sub);
                        let mut sels =
                            self.twin(tape, ty.base(), &f.sels, new_type.base(), &mut sub, fragments, depth - 1);
                        if sels.is_empty() {
                            self.field(tape, new_type.base(), "__typename", &mut sub, fragments, 0, &mut sels);
                        }
                        registry.keys.get_mut(f.key()).unwrap().sub = sub;
                        sels
                    } else {
                        Vec::new()
                    };
                    let alias = (f.key() != name).then(|| f.key().to_string());
                    out.push(Sel::Field(Field {
                        id,
                        alias,
                        name: name.to_string(),
                        sels,
                    }));
                }
            }
        }
        if out.is_empty() {
            self.field(tape, to, "__typename", registry, fragments, 0, &mut out);
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn field(
        &mut self,
        tape: &mut Tape<'_>,
        parent: &str,
        name: &str,
        registry: &mut Registry,
        fragments: &Fragments<'_>,
        depth: usize,
        out: &mut Vec<Sel>,
    ) {
        let schema = self.schema;
        let ty = declared(schema, parent, name).unwrap();
        let composite = schema.is_composite(ty.base());
        if composite && depth == 0 {
            return;
        }
        let aliased = if name == "__typename" { 10 } else { self.options.aliases };
        let mut alias = if tape.chance(aliased) {
            let pool: &[&str] = if self.options.underscores {
                &ALIASES_UNDERSCORED
            } else {
                &ALIASES
            };
            Some(tape.pick(pool).to_string())
        } else {
            None
        };
        let mut tries = 0;
        while !registry.reserve(schema, parent, alias.as_deref().unwrap_or(name), name) {
            tries += 1;
            if tries > 3 {
                return;
            }
            alias = Some(format!("k{}", tape.below(1000)));
        }
        let id = self.id();
        let key = alias.as_deref().unwrap_or(name).to_string();
        let sels = if composite {
            let mut sub = std::mem::take(&mut registry.keys.get_mut(&key).unwrap().sub);
            let sels = self.selections(tape, ty.base(), &mut sub, fragments, depth - 1);
            registry.keys.get_mut(&key).unwrap().sub = sub;
            sels
        } else {
            Vec::new()
        };
        out.push(Sel::Field(Field {
            id,
            alias,
            name: name.to_string(),
            sels,
        }));
    }

    pub fn variables(&mut self, tape: &mut Tape<'_>) -> Vec<Var> {
        let mut out: Vec<Var> = Vec::new();
        if !self.options.variables || tape.chance(40) {
            return out;
        }
        let names = ["id", "input", "first", "where", "flag", "ids", "default", "x1", "_v", "Zed"];
        let mut pool: Vec<String> = BUILTIN.iter().map(|s| s.to_string()).collect();
        for kind in [Kind::Enum, Kind::Scalar, Kind::Input, Kind::Input] {
            pool.extend(
                self.schema
                    .names_of(kind)
                    .into_iter()
                    .filter(|n| !BUILTIN.contains(&n.as_str())),
            );
        }
        for i in 0..tape.range(1, self.options.max_variables) {
            let mut name = tape.pick(&names).to_string();
            if i > 5 {
                name = format!("{name}{i}");
            }
            if !out.is_empty() && tape.chance(10) {
                // Only differs in its case from another one
                let other = &tape.pick(&out).name;
                name = match tape.below(3) {
                    0 => other.to_uppercase(),
                    1 => other.to_lowercase(),
                    _ => other[..1].to_uppercase() + &other[1..],
                };
            }
            if out.iter().any(|v| v.name == name) {
                continue;
            }
            let base = pool[tape.below(pool.len())].clone();
            let ty = wrap(tape, &base, 1);
            let id = self.id();
            let default = if self.options.defaults && tape.chance(30) {
                Some(default_for(self.schema, &ty))
            } else {
                None
            };
            out.push(Var {
                id,
                name,
                ty,
                default,
            });
        }
        out
    }

    pub fn project(&mut self, tape: &mut Tape<'_>) -> Vec<Doc> {
        let schema = self.schema;
        let reserved: BTreeSet<String> = schema.types.iter().map(|t| t.name.clone()).collect();
        let mut names: BTreeSet<String> = reserved.clone();
        let mut paths: BTreeSet<String> = BTreeSet::new();
        let mut docs: Vec<Doc> = Vec::new();
        let fragment_count = tape.range(self.options.fragments.0, self.options.fragments.1);
        let operation_count = tape.range(self.options.operations.0, self.options.operations.1);
        let mut unique = |tape: &mut Tape<'_>, pool: &[&str]| {
            let base = tape.pick(pool).to_string();
            let mut name = base.clone();
            let mut n = 2;
            while names.contains(&name) || names.contains(&format!("{name}Variables")) {
                name = format!("{base}{n}");
                n += 1;
            }
            names.insert(name.clone());
            names.insert(format!("{name}Variables"));
            name
        };
        for i in 0..fragment_count + operation_count {
            let known = docs.clone();
            let fragments: Fragments<'_> = known
                .iter()
                .filter(|d| d.is_fragment())
                .map(|d| (d.main_name().to_string(), d))
                .collect();
            let is_fragment = i < fragment_count;
            let kind = if is_fragment {
                let pool = schema.composites();
                DocKind::Fragment(pool[tape.below(pool.len())].clone())
            } else {
                match tape.below(100) {
                    0..=64 => DocKind::Query,
                    65..=89 if schema.mutation.is_some() => DocKind::Mutation,
                    65..=89 => DocKind::Query,
                    _ => DocKind::Subscription,
                }
            };
            let name = if is_fragment {
                Some(unique(tape, &FRAGMENT_NAMES))
            } else if tape.chance(15) {
                None
            } else {
                Some(unique(tape, &OPERATION_NAMES))
            };
            let mut doc = Doc {
                root: kind.root(schema),
                kind,
                name,
                vars: Vec::new(),
                sels: Vec::new(),
                path: String::new(),
                imports: Vec::new(),
            };
            self.budget = (if is_fragment { self.options.budget * 2 / 5 } else { self.options.budget }) as i32;
            let depth = if is_fragment {
                self.options.depth.saturating_sub(1).max(1)
            } else {
                self.options.depth
            };
            let mut registry = Registry::default();
            let parent = doc.static_type().to_string();
            doc.sels = self.selections(tape, &parent, &mut registry, &fragments, depth);
            if !is_fragment {
                doc.vars = self.variables(tape);
            }
            doc.path = unique_path(tape, &mut paths, self.options.subdirs);
            docs.push(doc);
        }
        self.imports(tape, &mut docs);
        docs
    }

    /// Writes the import lines every document needs
    pub fn imports(&mut self, tape: &mut Tape<'_>, docs: &mut [Doc]) {
        let targets: BTreeMap<String, usize> = docs
            .iter()
            .enumerate()
            .filter(|(_, d)| d.is_fragment())
            .map(|(i, d)| (d.main_name().to_string(), i))
            .collect();
        let fragment_indices: Vec<usize> = targets.values().copied().collect();
        for i in 0..docs.len() {
            let mut wanted: Vec<usize> = spread_names(&docs[i].sels)
                .iter()
                .filter_map(|n| targets.get(n).copied())
                .collect();
            if !self.options.plain_imports {
                // What is imported by an import is in scope as well
                let mut reachable: BTreeSet<usize> = BTreeSet::new();
                for w in &wanted {
                    reach(docs, *w, &mut reachable);
                }
                wanted.retain(|w| {
                    let by_other = reachable.contains(w)
                        && !spread_names(&docs[i].sels).is_empty()
                        && tape.chance(30);
                    !by_other
                });
                // Only keep the omission if still in scope
                let mut reached: BTreeSet<usize> = BTreeSet::new();
                for w in &wanted {
                    reached.insert(*w);
                    reach(docs, *w, &mut reached);
                }
                for n in spread_names(&docs[i].sels) {
                    if let Some(t) = targets.get(&n) {
                        if !reached.contains(t) {
                            wanted.push(*t);
                            reached.insert(*t);
                            reach(docs, *t, &mut reached);
                        }
                    }
                }
                if tape.chance(10) && !fragment_indices.is_empty() {
                    let extra = fragment_indices[tape.below(fragment_indices.len())];
                    if extra < i || !docs[i].is_fragment() {
                        wanted.push(extra);
                    }
                }
                tape.shuffle(&mut wanted);
            }
            let from = docs[i].path.clone();
            docs[i].imports = wanted
                .into_iter()
                .map(|t| Import {
                    path: if self.options.plain_imports {
                        docs[t].path.clone()
                    } else {
                        spell_import(tape, &from, &docs[t].path, self.options.prefix.as_deref())
                    },
                    tail: if self.options.plain_imports {
                        String::new()
                    } else {
                        tape.pick(&["", "", "", ";", " ", " # why"]).to_string()
                    },
                    target: t,
                })
                .collect();
        }
    }
}

fn reach(docs: &[Doc], from: usize, out: &mut BTreeSet<usize>) {
    for import in &docs[from].imports {
        if out.insert(import.target) {
            reach(docs, import.target, out);
        }
    }
}

pub fn unique_path(tape: &mut Tape<'_>, used: &mut BTreeSet<String>, subdirs: bool) -> String {
    let dir = if subdirs { *tape.pick(&DIRS) } else { "" };
    let base = *tape.pick(&FILE_NAMES);
    let mut path = format!("{dir}{base}.graphql");
    let mut n = 2;
    while used.contains(&path) {
        path = format!("{dir}{base}{n}.graphql");
        n += 1;
    }
    used.insert(path.clone());
    path
}

/// Path from the directory of one file to another, both relative to the root
pub fn relative(from: &str, to: &str) -> String {
    let from_dirs: Vec<&str> = from.split('/').collect();
    let to_parts: Vec<&str> = to.split('/').collect();
    let from_dirs = &from_dirs[..from_dirs.len() - 1];
    let mut common = 0;
    while common < from_dirs.len()
        && common + 1 < to_parts.len()
        && from_dirs[common] == to_parts[common]
    {
        common += 1;
    }
    let ups = from_dirs.len() - common;
    let down = to_parts[common..].join("/");
    if ups == 0 {
        format!("./{down}")
    } else {
        format!("{}{down}", "../".repeat(ups))
    }
}

pub fn spell_import(tape: &mut Tape<'_>, from: &str, to: &str, prefix: Option<&str>) -> String {
    match (tape.below(4), prefix) {
        (0, _) => to.to_string(),
        (1, Some(prefix)) => format!("{prefix}{to}"),
        (1, None) | (2, _) => relative(from, to),
        _ => {
            let r = relative(from, to);
            match tape.below(3) {
                0 => format!("./{r}"),
                1 => format!("././{r}"),
                _ => {
                    // Through the directory of the target and back
                    match to.rsplit_once('/') {
                        Some((dir, _)) => {
                            let back = "../".repeat(dir.split('/').count());
                            format!("{dir}/{back}{to}")
                        }
                        None => r,
                    }
                }
            }
        }
    }
}

fn default_for(schema: &Schema, ty: &TypeRef) -> String {
    match ty {
        TypeRef::NonNull(t) => default_for(schema, t),
        TypeRef::List(t) => format!("[{}]", default_for(schema, t)),
        TypeRef::Named(n) => match n.as_str() {
            "Int" => "3".into(),
            "Float" => "1.5".into(),
            "Boolean" => "true".into(),
            "String" | "ID" => "\"text with # and {\"".into(),
            other => match schema.kind(other) {
                Kind::Enum => schema.get(other).unwrap().values[0].clone(),
                Kind::Input => "{}".into(),
                _ => "\"x\"".into(),
            },
        },
    }
}

// ---------------------------------------------------------------------------------------------
// Printing

#[derive(Debug, Clone, Default)]
pub struct Printed {
    pub text: String,
    /// Line and column of fields (at the alias), of the `on` of inline fragments, of the name of
    /// spreads, of the `$` of variables
    pub positions: HashMap<u32, (usize, usize)>,
    /// Line of each import
    pub import_lines: Vec<usize>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Layout {
    /// One selection per line
    Pretty,
    /// Random spaces, commas, newlines, comments
    Loose,
    /// All on one line
    Compact,
}

pub fn gen_layout(tape: &mut Tape<'_>) -> Layout {
    match tape.below(4) {
        0 | 1 => Layout::Pretty,
        2 => Layout::Loose,
        _ => Layout::Compact,
    }
}

struct Printer<'t, 'd> {
    tape: &'t mut Tape<'d>,
    layout: Layout,
    out: Printed,
    line: usize,
    col: usize,
}

impl Printer<'_, '_> {
    fn push(&mut self, text: &str) {
        for c in text.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
        self.out.text.push_str(text);
    }
    fn mark(&mut self, id: u32) {
        self.out.positions.insert(id, (self.line, self.col));
    }
    /// Optional white space
    fn gap(&mut self) {
        if self.layout == Layout::Loose {
            let s = *self.tape.pick(&["", "", " ", "  ", "\n", "\n   "]);
            self.push(s);
        }
    }
    /// White space that separates
    fn space(&mut self) {
        if self.layout == Layout::Loose {
            let s = *self.tape.pick(&[" ", " ", "  ", "\n", "\n  ", " # note: {}\n ", ", "]);
            self.push(s);
        } else {
            self.push(" ");
        }
    }
    fn separator(&mut self, indent: usize) {
        match self.layout {
            Layout::Pretty => {
                let pad = "  ".repeat(indent);
                self.push("\n");
                self.push(&pad);
            }
            Layout::Compact => self.push(" "),
            Layout::Loose => {
                let s = *self
                    .tape
                    .pick(&[" ", "\n", "\n  ", ", ", ",\n", "\n# comment \"x\" { }\n", "\n\n     "]);
                self.push(s);
                if self.tape.chance(2) {
                    let s = long_filler(self.tape);
                    self.push(&s);
                }
            }
        }
    }
    fn selections(&mut self, sels: &[Sel], indent: usize) {
        self.push("{");
        for s in sels {
            self.separator(indent + 1);
            match s {
                Sel::Field(f) => {
                    self.mark(f.id);
                    if let Some(alias) = &f.alias {
                        self.push(alias);
                        self.gap();
                        self.push(":");
                        self.push(if self.layout == Layout::Compact { "" } else { " " });
                    }
                    self.push(&f.name);
                    let arguments = arguments(&f.name);
                    if !arguments.is_empty() {
                        self.gap();
                        self.push(arguments);
                    }
                    if self.layout == Layout::Loose && self.tape.chance(5) {
                        self.push(" @client");
                    }
                    if !f.sels.is_empty() {
                        if self.layout != Layout::Compact {
                            self.push(" ");
                        }
                        self.gap();
                        self.selections(&f.sels, indent + 1);
                    }
                }
                Sel::Inline { id, on, sels } => {
                    self.push("...");
                    if self.layout != Layout::Compact {
                        self.push(" ");
                        self.gap();
                    }
                    self.mark(*id);
                    if on.is_empty() {
                        // Not valid
                        let s = *self.tape.pick(&["", "@include(if: true) ", "@skip(if: false)"]);
                        self.push(s);
                    } else {
                        self.push("on");
                        self.space();
                        self.push(on);
                        self.push(if self.layout == Layout::Compact { "" } else { " " });
                    }
                    self.selections(sels, indent + 1);
                }
                Sel::Spread { id, name } => {
                    self.push("...");
                    if self.layout == Layout::Loose && self.tape.chance(20) {
                        self.push(" ");
                    }
                    self.mark(*id);
                    self.push(name);
                }
            }
        }
        self.separator(indent);
        self.push("}");
    }
}

/// Something insignificant that makes its line long
pub fn long_filler(tape: &mut Tape<'_>) -> String {
    let n = *tape.pick(&[30usize, 76, 100, 120, 160, 256, 1024, 4096, 9000]) + tape.below(6);
    let what = *tape.pick(&["a", "é", "☃", "🦀", "x é ☃ "]);
    match tape.below(4) {
        // Many lines
        3 => "\n".repeat(n),
        // At the end of the line
        0 => format!(" # {}\n", what.repeat(n / what.chars().count())),
        // Before what follows
        1 => " ".repeat(n),
        // A line of its own
        _ => format!("\n#{}\n", what.repeat(n / what.chars().count())),
    }
}

/// Arguments only depend on the field name, so that repeated fields can always merge
pub fn arguments(field: &str) -> &'static str {
    match field {
        "author" => "(first: 10)",
        "items" => "(after: \"x{y}\", size: [1, 2])",
        "edges" => "(o: {k: ENUM, v: null, s: \"#import \\\"a\\\"\"})",
        "owner" => "(flag: true)",
        "createdAt" => "(format: \"a:bé☃🦀\")",
        _ => "",
    }
}

/// Prints a document; head comments are only added if the layout is loose
pub fn print_doc(tape: &mut Tape<'_>, doc: &Doc, layout: Layout) -> Printed {
    let mut p = Printer {
        tape,
        layout,
        out: Printed::default(),
        line: 1,
        col: 1,
    };
    for import in &doc.imports {
        if layout == Layout::Loose && p.tape.chance(30) {
            let s = *p
                .tape
                .pick(&["\n", "# a comment\n", "#\n", "   \n", "# import \"nothing.graphql\"\n"]);
            p.push(s);
        }
        let line = p.line;
        p.out.import_lines.push(line);
        p.push(&format!("#import \"{}\"{}\n", import.path, import.tail));
    }
    if !doc.imports.is_empty() && layout != Layout::Compact {
        p.push("\n");
    }
    if layout == Layout::Loose && p.tape.chance(20) {
        p.push("# generated\n");
    }
    match &doc.kind {
        DocKind::Fragment(on) => {
            p.push("fragment");
            p.space();
            p.push(doc.main_name());
            p.space();
            p.push("on");
            p.space();
            p.push(on);
        }
        other => {
            p.push(match other {
                DocKind::Query => "query",
                DocKind::Mutation => "mutation",
                _ => "subscription",
            });
            if let Some(name) = &doc.name {
                p.space();
                p.push(name);
            }
            if !doc.vars.is_empty() {
                p.gap();
                p.push("(");
                for (i, v) in doc.vars.iter().enumerate() {
                    if i > 0 {
                        p.push(if p.layout == Layout::Compact { " " } else { ", " });
                    }
                    p.gap();
                    p.mark(v.id);
                    p.push(&format!("${}: {}", v.name, v.ty.gql()));
                    if let Some(d) = &v.default {
                        p.push(&format!(" = {d}"));
                    }
                }
                p.push(")");
            }
        }
    }
    p.push(" ");
    p.selections(&doc.sels, 0);
    p.push("\n");
    p.out
}
