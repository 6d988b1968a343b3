//! P16 and P17: generated modules judged by the TypeScript compiler.

use crate::common::*;
use crate::doc::{Doc, DocKind};
use crate::engine::{inconclusive, violation, Case, Check, Outcome, Stop};
use crate::model::{ObjShape, Prop, Shape};
use crate::run;
use crate::schema::{Kind, Schema, TypeRef};
use crate::tape::Tape;
use crate::tsc::{self, Program, TsDiag};
use std::collections::{BTreeMap, BTreeSet};

/// A value of a response, or of variables
#[derive(Debug, Clone, PartialEq)]
enum Val {
    Null,
    Str(&'static str),
    Num(&'static str),
    Bool(bool),
    Enum(String, String),
    Scalar(String),
    TypeName(String),
    Any(&'static str),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

fn quoted(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

impl Val {
    fn print(&self, out: &mut String) {
        match self {
            Val::Null => out.push_str("null"),
            Val::Str(s) => out.push_str(&quoted(s)),
            Val::Num(n) => out.push_str(n),
            Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Val::Enum(e, v) => out.push_str(&format!("G.{e}[{}]", quoted(v))),
            Val::Scalar(s) => out.push_str(&format!("{{ scalar: {} }}", quoted(s))),
            Val::TypeName(t) => out.push_str(&quoted(t)),
            Val::Any(text) => out.push_str(text),
            Val::List(l) => {
                out.push('[');
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    v.print(out);
                }
                out.push(']');
            }
            Val::Obj(m) => {
                out.push_str("{ ");
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(&format!("{}: ", quoted(k)));
                    v.print(out);
                }
                out.push_str(" }");
            }
        }
    }
    fn size(&self) -> usize {
        match self {
            Val::List(l) => 1 + l.iter().map(|v| v.size()).sum::<usize>(),
            Val::Obj(m) => 1 + m.iter().map(|(_, v)| v.size()).sum::<usize>(),
            _ => 1,
        }
    }
    /// The n-th part, counting as size does
    fn part(&mut self, n: &mut usize) -> Option<&mut Val> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        match self {
            Val::List(l) => l.iter_mut().find_map(|v| v.part(n)),
            Val::Obj(m) => m.iter_mut().find_map(|(_, v)| v.part(n)),
            _ => None,
        }
    }
}

struct Values<'a> {
    schema: &'a Schema,
    project: &'a Project,
    budget: i32,
    /// Fully populated, to reach deep places
    full: bool,
}

impl Values<'_> {
    fn leaf(&self, tape: &mut Tape<'_>, name: &str) -> Val {
        match self.schema.kind(name) {
            Kind::Enum => {
                let values = &self.schema.get(name).unwrap().values;
                Val::Enum(name.to_string(), tape.pick(values).clone())
            }
            _ => match name {
                "String" => Val::Str(tape.pick(&["", "text", "A", "null", "é\n\"'`\\"])),
                "ID" => Val::Str(tape.pick(&["1", "id"])),
                "Int" => Val::Num(tape.pick(&["0", "1", "-7", "2147483647"])),
                "Float" => Val::Num(tape.pick(&["0", "0.5", "-1.5e-9", "3"])),
                "Boolean" => Val::Bool(tape.chance(50)),
                custom if self.project.config.custom_scalars => Val::Scalar(self.project.config.scalar(custom)),
                _ => Val::Any(tape.pick(&["1", "\"x\"", "{ a: [1] }", "[[]]", "true"])),
            },
        }
    }

    fn wrapped(&mut self, tape: &mut Tape<'_>, ty: &TypeRef, nullable: bool, inner: &mut dyn FnMut(&mut Self, &mut Tape<'_>) -> Val) -> Val {
        self.budget -= 1;
        match ty {
            TypeRef::NonNull(t) => self.wrapped(tape, t, false, inner),
            _ if nullable && (self.budget < 0 || tape.chance(if self.full { 3 } else { 20 })) => Val::Null,
            TypeRef::List(t) => {
                let n = if self.budget < 0 {
                    0
                } else if self.full {
                    1 + tape.below(2)
                } else {
                    tape.below(3)
                };
                Val::List((0..n).map(|_| self.wrapped(tape, t, true, inner)).collect())
            }
            TypeRef::Named(_) => inner(self, tape),
        }
    }

    fn prop(&mut self, tape: &mut Tape<'_>, p: &Prop, runtime: &str) -> Val {
        // The declaration of the object type itself may be stricter
        self.wrapped(tape, &p.ty, !p.own_non_null, &mut |me, tape| match &p.shape {
            Shape::TypeName => Val::TypeName(runtime.to_string()),
            Shape::Leaf(name) => me.leaf(tape, name),
            Shape::Obj(o) => me.object(tape, o),
        })
    }

    fn object(&mut self, tape: &mut Tape<'_>, shape: &ObjShape) -> Val {
        let types: Vec<&String> = shape.alts.keys().collect();
        let t = *tape.pick(&types);
        self.object_of(tape, shape, t)
    }

    fn object_of(&mut self, tape: &mut Tape<'_>, shape: &ObjShape, t: &str) -> Val {
        let mut out: Vec<(String, Val)> = shape.alts[t]
            .iter()
            .map(|(k, p)| (k.clone(), self.prop(tape, p, t)))
            .collect();
        tape.shuffle(&mut out);
        Val::Obj(out)
    }

    fn input(&mut self, tape: &mut Tape<'_>, ty: &TypeRef) -> Val {
        let base = ty.base().to_string();
        self.wrapped(tape, ty, true, &mut |me, tape| {
            if me.schema.kind(&base) != Kind::Input {
                return me.leaf(tape, &base);
            }
            let fields = me.schema.get(&base).unwrap().fields.clone();
            me.members(tape, fields.into_iter().map(|f| (f.name, f.ty)).collect())
        })
    }

    fn members(&mut self, tape: &mut Tape<'_>, fields: Vec<(String, TypeRef)>) -> Val {
        let mut out = Vec::new();
        for (name, ty) in fields {
            // Left out, it would be taken for the one every object has
            let inherited = INHERITED.contains(&name.as_str());
            if !ty.is_non_null() && !inherited && (self.budget < 0 || tape.chance(if self.full { 5 } else { 35 })) {
                continue;
            }
            let v = self.input(tape, &ty);
            out.push((name, v));
        }
        tape.shuffle(&mut out);
        Val::Obj(out)
    }

    // -----------------------------------------------------------------------------------------
    // Whether a value could pass, at best

    fn fits_leaf(&self, name: &str, v: &Val) -> bool {
        match (self.schema.kind(name), v) {
            (Kind::Enum, Val::Enum(e, x)) => e == name && self.schema.get(name).unwrap().values.contains(x),
            (Kind::Enum, _) => false,
            (_, v) => match name {
                "String" | "ID" => matches!(v, Val::Str(_) | Val::TypeName(_) | Val::Enum(..)),
                "Int" | "Float" => matches!(v, Val::Num(_)),
                "Boolean" => matches!(v, Val::Bool(_)),
                custom if self.project.config.custom_scalars => *v == Val::Scalar(self.project.config.scalar(custom)),
                _ => true,
            },
        }
    }

    fn fits(&self, ty: &TypeRef, nullable: bool, v: &Val, named: &dyn Fn(&Val) -> bool) -> bool {
        match (ty, v) {
            (TypeRef::NonNull(t), v) => self.fits(t, false, v, named),
            // The type could be any
            (TypeRef::Named(n), Val::Null) => nullable || (!self.schema.is_composite(n) && self.fits_leaf(n, v)),
            (_, Val::Null) => nullable,
            (TypeRef::List(t), Val::List(l)) => l.iter().all(|v| self.fits(t, true, v, named)),
            // It could be anything
            (TypeRef::List(_), Val::Any(_)) => true,
            (TypeRef::List(_), _) => false,
            (TypeRef::Named(_), v) => named(v),
        }
    }

    fn fits_object(&self, shape: &ObjShape, v: &Val) -> bool {
        // `{}` takes everything but null
        if shape.alts.values().any(|props| props.is_empty()) {
            return *v != Val::Null;
        }
        let Val::Obj(members) = v else {
            let builtin = |k: &String| INHERITED.contains(&k.as_str()) || MEMBERS.contains(&k.as_str());
            return matches!(v, Val::Any(_)) || *v != Val::Null && shape.alts.values().any(|props| props.keys().all(builtin));
        };
        shape.alts.iter().any(|(t, props)| {
            props.iter().all(|(k, p)| {
                let Some((_, v)) = members.iter().find(|(name, _)| name == k) else {
                    // Every object has these
                    return INHERITED.contains(&k.as_str());
                };
                self.fits(&p.ty, !p.all_non_null, v, &|v| match &p.shape {
                    // Types selected alike share an alternative
                    Shape::TypeName => {
                        let name = match v {
                            Val::TypeName(x) => x.as_str(),
                            Val::Str(x) => x,
                            _ => return false,
                        };
                        name == t || shape.alts.get(name).is_some_and(|other| other.keys().eq(props.keys()))
                    }
                    Shape::Leaf(name) => self.fits_leaf(name, v),
                    // More may be allowed than the object type can have
                    Shape::Obj(_) if p.narrowed => *v != Val::Null,
                    Shape::Obj(o) => self.fits_object(o, v),
                })
            })
        })
    }
}

const INHERITED: [&str; 7] = [
    "constructor",
    "toString",
    "toLocaleString",
    "valueOf",
    "hasOwnProperty",
    "isPrototypeOf",
    "propertyIsEnumerable",
];

/// Members of strings, numbers and arrays
const MEMBERS: [&str; 59] = [
    "anchor", "at", "big", "blink", "bold", "charAt", "charCodeAt", "concat", "every", "filter", "fixed", "fontcolor",
    "fontsize", "forEach", "indexOf", "italics", "join", "lastIndexOf", "length", "link", "localeCompare", "map", "match",
    "pop", "push", "reduce", "reduceRight", "replace", "reverse", "search", "shift", "slice", "small", "some", "sort",
    "splice", "split", "strike", "sub", "substr", "substring", "sup", "toExponential", "toFixed", "toLocaleLowerCase",
    "toLocaleUpperCase", "toLowerCase", "toPrecision", "toUpperCase", "trim", "unshift", "call", "apply", "bind",
    "caller", "arguments", "name", "prototype", "description",
];

/// One thing about a value made wrong
fn corrupt(tape: &mut Tape<'_>, schema: &Schema, v: &Val) -> (Val, &'static str) {
    let mut out = v.clone();
    let mut n = tape.below(v.size());
    let part = out.part(&mut n).expect("within size");
    let types: Vec<String> = schema.names_of(Kind::Object);
    let enums: Vec<String> = schema.names_of(Kind::Enum);
    let what = match (&mut *part, tape.below(8)) {
        (Val::Obj(m), 0..=3) if !m.is_empty() => {
            let at = tape.below(m.len());
            m.remove(at);
            "a key is missing"
        }
        (Val::List(l), 0 | 1) => {
            *part = l.first().cloned().unwrap_or(Val::Obj(Vec::new()));
            "a list is missing"
        }
        (Val::TypeName(t), 0..=5) => {
            let mut others = types.clone();
            others.push("Nowhere".into());
            others.push(String::new());
            others.retain(|o| o != t);
            *t = tape.pick(&others).clone();
            "another type name"
        }
        (_, 6) => {
            *part = Val::Null;
            "null"
        }
        (_, 7) => {
            let old = part.clone();
            *part = Val::List(vec![old]);
            "a list too many"
        }
        (old, _) => {
            let mut others = vec![
                Val::Str("text"),
                Val::Num("1"),
                Val::Bool(true),
                Val::Obj(Vec::new()),
                Val::Scalar("Other".into()),
                Val::List(Vec::new()),
            ];
            if !enums.is_empty() {
                let e = tape.pick(&enums).clone();
                let value = tape.pick(&schema.get(&e).unwrap().values).clone();
                // By its name, not the enum
                if matches!(old, Val::Enum(..)) {
                    others.push(Val::TypeName(value));
                }
            }
            let same = |o: &Val| std::mem::discriminant(o) == std::mem::discriminant(old);
            others.retain(|o| !same(o));
            *part = tape.pick(&others).clone();
            "another kind of value"
        }
    };
    (out, what)
}

/// A file with one statement per line, and what is expected of it
struct TestFile {
    path: String,
    text: String,
    lines: i64,
    /// Lines that must be rejected, with a description
    wrong: BTreeMap<i64, String>,
    /// And those that must not
    right: BTreeMap<i64, String>,
}

impl TestFile {
    fn new(path: String, header: &[String]) -> TestFile {
        let mut f = TestFile {
            path,
            text: String::new(),
            lines: 0,
            wrong: BTreeMap::new(),
            right: BTreeMap::new(),
        };
        for h in header {
            f.push(h.clone());
        }
        f
    }
    fn push(&mut self, line: String) -> i64 {
        debug_assert!(!line.contains('\n'));
        self.text.push_str(&line);
        self.text.push('\n');
        self.lines += 1;
        self.lines - 1
    }
    fn accept(&mut self, line: String, what: &str) {
        let n = self.push(line);
        self.right.insert(n, what.to_string());
    }
    fn reject(&mut self, line: String, what: &str) {
        let n = self.push(line);
        self.wrong.insert(n, what.to_string());
    }
}

fn judge(program: &mut Program, tests: Vec<TestFile>) -> Outcome {
    for t in &tests {
        program.files.insert(t.path.clone(), t.text.clone());
    }
    let diags = program.check()?;
    let context = |d: &TsDiag| {
        let text = program.files.get(&d.file).map_or("", |s| s.as_str());
        let line = text.lines().nth(d.line.max(0) as usize).unwrap_or("");
        format!("{}:{}: TS{} {}\n  {line}", d.file, d.line + 1, d.code, d.text)
    };
    for d in &diags {
        match tests.iter().find(|t| t.path == d.file) {
            None => {
                let shown = program.files.get(&d.file).map_or("", |s| s.as_str());
                return violation(format!("the generated module does not compile: {}\n{shown}", context(d)));
            }
            Some(t) if t.wrong.contains_key(&d.line) => {}
            Some(t) => {
                let what = t.right.get(&d.line).cloned().unwrap_or_else(|| "the imports".into());
                let module = module_of(program, t);
                return violation(format!("{what} is rejected: {}\n{module}", context(d)));
            }
        }
    }
    for t in &tests {
        for (n, what) in &t.wrong {
            if !diags.iter().any(|d| d.file == t.path && d.line == *n) {
                let line = t.text.lines().nth(*n as usize).unwrap_or("");
                return violation(format!("{what} is accepted:\n  {line}\n{}", module_of(program, t)));
            }
        }
    }
    Ok(())
}

fn module_of(program: &Program, t: &TestFile) -> String {
    let from = t.text.lines().next().unwrap_or("");
    let path = from.split('"').nth(1).unwrap_or("").trim_start_matches('.');
    program.files.get(&format!("{path}.d.ts")).cloned().unwrap_or_default()
}

fn header(doc: &Doc, globals: Option<&str>) -> Vec<String> {
    let mut h = vec![format!("import type * as M from \"./root/{}\";", doc.path)];
    if let Some(g) = globals {
        h.push(format!("import * as G from {};", quoted(g)));
    }
    h
}

fn uses_enum(v: &Val) -> bool {
    match v {
        Val::Enum(..) => true,
        Val::List(l) => l.iter().any(uses_enum),
        Val::Obj(m) => m.iter().any(|(_, v)| uses_enum(v)),
        _ => false,
    }
}

fn p16(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.big = tape.chance(20);
    options.docs.defaults = true;
    options.docs.operations = (1, 3);
    let project = gen_project(tape, &options);
    project.note(case);
    let compiled = accept(case, &project)?;
    let mut program = Program::new(&project)?;
    program.generated(&project, &compiled.files);
    let globals = compiled
        .files
        .contains_key(&project.globals_path())
        .then(|| project.config.globals_module());
    let mut tests = Vec::new();
    let (mut accepted, mut rejected) = (0, 0);
    for (i, doc) in project.docs.iter().enumerate() {
        if project.may_collide(i) {
            case.label("names could collide");
            program.files.remove(&format!("/root/{}", doc.output()));
            continue;
        }
        let shape = project.shape(i);
        let mut test = TestFile::new(format!("/test{i}.ts"), &header(doc, globals.as_deref()));
        let main = doc.main_name();
        let types: Vec<String> = shape.alts.keys().cloned().collect();
        let mut seen = BTreeSet::new();
        for n in 0..4 {
            let mut values = Values {
                schema: &project.schema,
                project: &project,
                budget: 120,
                full: n % 2 == 0,
            };
            // Each type of object at the top gets its turn
            let t = &types[n % types.len()];
            let v = if n < types.len() { values.object_of(tape, &shape, t) } else { values.object(tape, &shape) };
            if v.size() > 600 {
                case.label("large response left out");
                continue;
            }
            let mut text = String::new();
            v.print(&mut text);
            test.accept(format!("export const a{n}: M.{main} = {text};"), "a conforming response");
            accepted += 1;
            for k in 0..6 {
                let (bad, what) = corrupt(tape, &project.schema, &v);
                if values.fits_object(&shape, &bad) {
                    continue;
                }
                debug_assert!(!uses_enum(&bad) || globals.is_some());
                let mut text = String::new();
                bad.print(&mut text);
                if !seen.insert(text.clone()) {
                    continue;
                }
                test.reject(format!("export const r{n}x{k}: M.{main} = {text};"), &format!("a response in which there is {what}"));
                case.label(what);
                rejected += 1;
            }
        }
        if !doc.vars.is_empty() {
            for n in 0..3 {
                let mut values = Values {
                    schema: &project.schema,
                    project: &project,
                    budget: 60,
                    full: n == 0,
                };
                let fields = doc.vars.iter().map(|v| (v.name.clone(), v.ty.clone())).collect();
                let v = values.members(tape, fields);
                let mut text = String::new();
                v.print(&mut text);
                test.accept(format!("export const v{n}: M.{main}Variables = {text};"), "a valid variables object");
                case.label("variables");
            }
        }
        tests.push(test);
    }
    if accepted == 0 {
        case.exclude("names of all documents could collide");
    }
    for t in &tests {
        case.note(t.path.clone(), t.text.clone());
    }
    judge(&mut program, tests)?;
    if accepted > 0 && rejected > 0 {
        case.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P17

const EQUAL: &str = "type Equal<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;";

fn node_of(doc: &Doc, schema: &Schema) -> &'static str {
    match doc.kind {
        DocKind::Query => "QueryDocumentNode",
        DocKind::Mutation => "MutationDocumentNode",
        DocKind::Subscription if schema.subscription.is_some() => "SubscriptionDocumentNode",
        // As it has always been
        DocKind::Subscription => "QueryDocumentNode",
        DocKind::Fragment(_) => "FragmentDocumentNode",
    }
}

/// A node module of the user's own, in which the kinds are told apart
const OWN_NODES: &str = "type Obj = Record<string, unknown>;
export type QueryDocumentNode<D extends Obj, V extends Obj> = { own: \"query\"; d: (d: D) => D; v: (v: V) => V };
export type MutationDocumentNode<D extends Obj, V extends Obj> = { own: \"mutation\"; d: (d: D) => D; v: (v: V) => V };
export type SubscriptionDocumentNode<D extends Obj, V extends Obj> = { own: \"subscription\"; d: (d: D) => D; v: (v: V) => V };
export type FragmentDocumentNode<D extends Obj> = { own: \"fragment\"; d: (d: D) => D };
";

fn p17(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.operations = (2, 4);
    options.docs.fragments = (1, 3);
    options.docs.depth = 2;
    let project = gen_project(tape, &options);
    project.note(case);
    let compiled = accept(case, &project)?;
    let mut program = Program::new(&project)?;
    program.generated(&project, &compiled.files);
    let own = project.config.node_module.is_some() && tape.chance(50);
    if own {
        // Under another path, since the shipped text is kept
        program.files.insert("/own-nodes.d.ts".into(), OWN_NODES.into());
        program.modules.insert(project.config.node_module_name(), "/own-nodes.d.ts".into());
    }
    let nodes = project.config.node_module_name();
    let mut docs: Vec<&Doc> = Vec::new();
    for (i, doc) in project.docs.iter().enumerate() {
        if project.may_collide(i) {
            case.label("names could collide");
            program.files.remove(&format!("/root/{}", doc.output()));
        } else {
            docs.push(doc);
        }
    }
    let mut tests = Vec::new();
    for (i, doc) in docs.iter().enumerate() {
        let main = doc.main_name();
        let variables = if doc.is_fragment() {
            None
        } else if doc.vars.is_empty() {
            Some("never".to_string())
        } else {
            Some(format!("M.{main}Variables"))
        };
        let data = format!("M.{main}");
        let mut h = header(doc, None);
        h.push(format!("import doc from \"./root/{}\";", doc.path));
        h.push(format!("import type * as N from {};", quoted(&nodes)));
        h.push(EQUAL.to_string());
        let mut test = TestFile::new(format!("/test{i}.ts"), &h);
        let args = match &variables {
            Some(v) => format!("{data}, {v}"),
            None => data.clone(),
        };
        let node = node_of(doc, &project.schema);
        test.accept(
            format!("export const annotation: Equal<typeof doc, N.{node}<{args}>> = true;"),
            "the annotation with the node kind, data and variables of the document",
        );
        case.label(match doc.kind {
            DocKind::Query => "query",
            DocKind::Mutation => "mutation",
            DocKind::Subscription => "subscription",
            DocKind::Fragment(_) => "fragment",
        });
        if own {
            tests.push(test);
            continue;
        }
        test.accept(
            format!("export const data: Equal<N.DataOf<typeof doc>, {data}> = true;"),
            "the data type recovered by the helper",
        );
        if let Some(v) = &variables {
            test.accept(
                format!("export const variables: Equal<N.VariablesOf<typeof doc>, {v}> = true;"),
                "the variables type recovered by the helper",
            );
        }
        // Also through the kinds no document is annotated with today
        for kind in ["Query", "Mutation", "Subscription"] {
            let v = variables.clone().unwrap_or_else(|| "{ readonly a: string }".to_string());
            test.accept(
                format!("export const data{kind}: Equal<N.DataOf<N.{kind}DocumentNode<{data}, {v}>>, {data}> = true;"),
                "the data type recovered by the helper",
            );
            test.accept(
                format!("export const variables{kind}: Equal<N.VariablesOf<N.{kind}DocumentNode<{data}, {v}>>, {v}> = true;"),
                "the variables type recovered by the helper",
            );
        }
        test.accept(
            format!("export const dataFragment: Equal<N.DataOf<N.FragmentDocumentNode<{data}>>, {data}> = true;"),
            "the data type recovered by the helper",
        );
        tests.push(test);
    }
    // Nodes of one kind with other data
    let mut others = 0;
    if !own && docs.len() > 1 {
        let mut h = vec!["import type * as M from \"./root/nothing\";".to_string()];
        h.clear();
        for (i, doc) in docs.iter().enumerate() {
            h.push(format!("import type * as M{i} from \"./root/{}\";", doc.path));
        }
        h.push(format!("import type * as N from {};", quoted(&nodes)));
        h.push(EQUAL.to_string());
        let mut probe = TestFile::new("/probe.ts".into(), &h);
        let mut pairs = Vec::new();
        for i in 0..docs.len() {
            for j in 0..docs.len() {
                if i != j && pairs.len() < 8 && tape.chance(60) {
                    let (a, b) = (format!("M{i}.{}", docs[i].main_name()), format!("M{j}.{}", docs[j].main_name()));
                    let n = probe.push(format!("export const p{i}x{j}: {b} = null! as {a};"));
                    pairs.push((n, a, b));
                }
            }
        }
        let mut first = program.clone();
        first.files.insert(probe.path.clone(), probe.text.clone());
        let diags = first.check()?;
        let mut test = TestFile::new("/pairs.ts".into(), &h);
        for (k, (n, a, b)) in pairs.iter().enumerate() {
            // Whether data of the one could be taken for data of the other
            let differs = diags.iter().any(|d| d.file == probe.path && d.line == *n);
            if !differs {
                continue;
            }
            others += 1;
            for kind in ["Query", "Mutation", "Subscription", "Fragment"] {
                let v = if kind == "Fragment" { "" } else { ", { readonly a: string }" };
                test.reject(
                    format!("export const q{k}{kind}: N.{kind}DocumentNode<{b}{v}> = null! as N.{kind}DocumentNode<{a}{v}>;"),
                    &format!("a {kind} node with other data"),
                );
            }
        }
        tests.push(test);
    }
    for t in &tests {
        case.note(t.path.clone(), t.text.clone());
    }
    judge(&mut program, tests)?;
    case.label_if(own, "own node module");
    case.label_if(others > 0, "nodes with other data");
    if docs.len() > 1 {
        case.nontrivial();
    }
    Ok(())
}

/// Names that are keywords or built-in types in TypeScript
fn reserved(case: &mut Case<'_>) -> Result<bool, Stop> {
    let root = case.dir.join("root");
    run::write_file(
        &root.join("schema.json"),
        r#"{"data":{"__schema":{"types":[{"kind":"OBJECT","name":"Query","fields":[{"name":"a","type":{"kind":"SCALAR","name":"Int"}}]},{"kind":"SCALAR","name":"Int"}]}}}"#,
    )?;
    run::write_file(&root.join("q.graphql"), "query string { a }")?;
    let project = Project::default();
    let compiled = compile(case, &project, &root)?;
    if compiled.ran.code != Some(0) {
        return Ok(false);
    }
    let mut program = Program::new(&project)?;
    program.generated(&project, &compiled.files);
    Ok(program.check()?.iter().any(|d| d.file == "/root/q.graphql.d.ts"))
}

/// The checker itself tells right from wrong
fn self_test(_: &mut Case<'_>) -> Outcome {
    let project = Project::default();
    let mut program = Program::new(&project)?;
    program.files.insert(
        "/t.ts".into(),
        "export const a: ReadonlyArray<string> = [\"x\"];\nexport const b: ReadonlyArray<string> = [null];\nexport const c: { x: 1 } = {};\n".into(),
    );
    let lines: Vec<i64> = program.check()?.iter().map(|d| d.line).collect();
    if lines != [1, 2] {
        return inconclusive(format!("the type checker reports lines {lines:?}"));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P16",
            rule: "generated projects; all modules type-checked (strict), with up to four conforming responses per document, up to 24 responses made wrong in one place that no alternative could hold, and variables objects; non-trivial: at least one response of both sorts",
            quick_cases: 1600,
            thorough_cases: 60_000,
            tape: (300, 2500),
            shrink_iters: 250,
            prepare: Some(tsc::prepare),
            fixed: &[("self test of the type checker", self_test)],
            known: &[("names that are keywords or built-in types of TypeScript", reserved)],
            assumptions: &["TypeScript 5.9.3 with lib.es5", "documents whose generated names could collide are left out (see P22)"],
            run: p16,
            ..Check::base()
        },
        Check {
            id: "P17",
            rule: "generated projects of queries, mutations, subscriptions and fragments, with the shipped node module, or one of the user's own; identity of types is judged by the type checker; non-trivial: at least two documents",
            quick_cases: 1600,
            thorough_cases: 60_000,
            tape: (300, 2500),
            shrink_iters: 250,
            prepare: Some(tsc::prepare),
            fixed: &[("self test of the type checker", self_test)],
            assumptions: &["TypeScript 5.9.3 with lib.es5", "documents whose generated names could collide are left out (see P22)"],
            run: p17,
            ..Check::base()
        },
    ]
}
