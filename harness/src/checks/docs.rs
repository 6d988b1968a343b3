//! P14 and P15: warnings, and the comments made of descriptions and deprecations.

use crate::checks::metamorphic::plain_imports;
use crate::common::*;
use crate::diag::{Diag, Level};
use crate::doc::{Doc, Field, Fragments, Sel};
use crate::engine::{violation, Case, Check, Outcome};
use crate::model::{ObjShape, Shape};
use crate::schema::{plain_description, Kind, Schema};
use crate::tape::Tape;
use crate::ts::{self, Comparer, Decl, Module, Ty};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// P14

#[derive(Debug, Clone)]
enum What {
    Deprecated { field: String, parent: String },
    /// A fragment of this type where only those are possible
    Narrow { on: String, possible: BTreeSet<String> },
    /// A fragment inside one that is impossible already: may be reported
    MaybeNarrow { on: String },
}

#[derive(Debug, Clone)]
struct Wanted {
    doc: usize,
    at: (usize, usize),
    what: What,
}

struct Collector<'a> {
    schema: &'a Schema,
    fragments: Fragments<'a>,
    doc: usize,
    positions: &'a std::collections::HashMap<u32, (usize, usize)>,
    out: Vec<Wanted>,
}

impl Collector<'_> {
    fn push(&mut self, id: u32, what: What) {
        let at = self.positions[&id];
        self.out.push(Wanted { doc: self.doc, at, what });
    }
    fn fragment(&mut self, id: u32, on: &str, possible: &BTreeSet<String>) -> BTreeSet<String> {
        let own = self.schema.possible(on);
        let left: BTreeSet<String> = possible.intersection(&own).cloned().collect();
        if left.is_empty() {
            let on = on.to_string();
            let what = if possible.is_empty() {
                What::MaybeNarrow { on }
            } else {
                What::Narrow {
                    on,
                    possible: possible.clone(),
                }
            };
            self.push(id, what);
        }
        left
    }
    fn walk(&mut self, sels: &[Sel], parent: &str, possible: &BTreeSet<String>) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    let Some(def) = self.schema.field(parent, &f.name) else {
                        continue;
                    };
                    if def.deprecated {
                        self.push(
                            f.id,
                            What::Deprecated {
                                field: f.name.clone(),
                                parent: parent.to_string(),
                            },
                        );
                    }
                    let base = def.ty.base().to_string();
                    let below = self.schema.possible(&base);
                    self.walk(&f.sels, &base, &below);
                }
                Sel::Inline { id, on, sels } => {
                    let left = self.fragment(*id, on, possible);
                    self.walk(sels, on, &left);
                }
                Sel::Spread { id, name } => {
                    let on = self.fragments[name].static_type().to_string();
                    self.fragment(*id, &on, possible);
                }
            }
        }
    }
}

fn ticked(text: &str) -> BTreeSet<String> {
    text.split('`').skip(1).step_by(2).map(|s| s.to_string()).collect()
}

fn fits(w: &Diag, wanted: &Wanted, project: &Project, root: &str) -> Result<(), String> {
    let path = format!("{root}/{}", project.docs[wanted.doc].path);
    if w.path.as_deref() != Some(path.as_str()) || (w.line, w.col) != (Some(wanted.at.0), Some(wanted.at.1)) {
        return Err("elsewhere".into());
    }
    let line = project.printed[wanted.doc].text.split('\n').nth(wanted.at.0 - 1).unwrap_or("");
    if w.quoted.as_ref().map(|q| q.1.as_str()) != Some(line) {
        return Err(format!("quotes {:?} instead of {line:?}", w.quoted));
    }
    let names = ticked(&w.whole());
    match &wanted.what {
        What::Deprecated { field, parent } => {
            let want: BTreeSet<String> = [field.clone(), parent.clone()].into();
            if names != want || !w.text.contains("deprecated") {
                return Err(format!("names {names:?} instead of {want:?}"));
            }
        }
        What::Narrow { on, possible } => {
            let mut want = possible.clone();
            want.insert(on.clone());
            let listed = ticked(w.help.as_deref().unwrap_or(""));
            if names != want || !ticked(&w.text).contains(on) || !possible.iter().all(|p| listed.contains(p)) {
                return Err(format!("names {names:?} instead of {want:?}"));
            }
        }
        What::MaybeNarrow { on } => {
            if !names.contains(on) {
                return Err(format!("names {names:?} instead of `{on}`"));
            }
        }
    }
    Ok(())
}

/// Adds fragments that cannot apply where they are written
struct Planter<'a> {
    schema: &'a Schema,
    fragments: Vec<(String, String)>,
    next: u32,
    planted: usize,
    spreads: usize,
    budget: usize,
    allow_spreads: bool,
}

impl Planter<'_> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    fn simple(&mut self, tape: &mut Tape<'_>, on: &str, depth: usize) -> Vec<Sel> {
        let mut out = Vec::new();
        let fields: Vec<(String, String)> = self
            .schema
            .get(on)
            .unwrap()
            .fields
            .iter()
            .map(|f| (f.name.clone(), f.ty.base().to_string()))
            .collect();
        for _ in 0..tape.range(1, 3) {
            if fields.is_empty() || tape.chance(20) {
                continue;
            }
            let (name, base) = fields[tape.below(fields.len())].clone();
            let sels = if self.schema.is_composite(&base) {
                if depth == 0 {
                    continue;
                }
                self.simple(tape, &base, depth - 1)
            } else {
                Vec::new()
            };
            let id = self.id();
            let alias = Some(format!("p{id}"));
            out.push(Sel::Field(Field { id, alias, name, sels }));
        }
        if out.is_empty() {
            let id = self.id();
            out.push(Sel::Field(Field {
                id,
                alias: Some(format!("p{id}")),
                name: "__typename".into(),
                sels: Vec::new(),
            }));
        }
        out
    }

    fn plant(&mut self, tape: &mut Tape<'_>, sels: &mut Vec<Sel>, parent: &str, possible: &BTreeSet<String>, depth: usize) {
        for s in sels.iter_mut() {
            match s {
                Sel::Field(f) => {
                    if let Some(def) = self.schema.field(parent, &f.name) {
                        if !f.sels.is_empty() {
                            let base = def.ty.base().to_string();
                            let below = self.schema.possible(&base);
                            self.plant(tape, &mut f.sels, &base, &below, depth + 1);
                        }
                    }
                }
                Sel::Inline { on, sels, .. } => {
                    let left = possible.intersection(&self.schema.possible(on)).cloned().collect();
                    let on = on.clone();
                    self.plant(tape, sels, &on, &left, depth + 1);
                }
                Sel::Spread { .. } => {}
            }
        }
        if self.budget == 0 || depth > 6 || !tape.chance(35) {
            return;
        }
        self.budget -= 1;
        let at = tape.below(sels.len() + 1);
        let impossible: Vec<(String, String)> = self
            .fragments
            .iter()
            .filter(|(_, on)| self.schema.possible(on).is_disjoint(possible))
            .cloned()
            .collect();
        if self.allow_spreads && !impossible.is_empty() && tape.chance(40) {
            let (name, _) = tape.pick(&impossible).clone();
            let id = self.id();
            sels.insert(at, Sel::Spread { id, name });
            self.planted += 1;
            self.spreads += 1;
            return;
        }
        let types: Vec<String> = self
            .schema
            .composites()
            .into_iter()
            .filter(|t| self.schema.possible(t).is_disjoint(possible) && !self.schema.possible(t).is_empty())
            .collect();
        if types.is_empty() {
            return;
        }
        let on = tape.pick(&types).clone();
        let mut inner = self.simple(tape, &on, 2);
        if tape.chance(20) {
            // And possible again, inside
            let own = on.clone();
            let id = self.id();
            let sels = self.simple(tape, &own, 1);
            inner.push(Sel::Inline { id, on: own, sels });
        }
        let id = self.id();
        sels.insert(at, Sel::Inline { id, on, sels: inner });
        self.planted += 1;
    }
}

fn max_id(docs: &[Doc]) -> u32 {
    let mut max = 0;
    for d in docs {
        crate::doc::walk(&d.sels, &mut |s| {
            max = max.max(match s {
                Sel::Field(f) => f.id,
                Sel::Inline { id, .. } | Sel::Spread { id, .. } => *id,
            })
        });
    }
    max
}

/// Documents so that each only spreads earlier ones; planting keeps that
fn p14(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.deprecations = *tape.pick(&[5, 30, 60]);
    options.schema.covariant = false;
    options.schema.big = tape.chance(20);
    options.docs.fragments = (0, 4);
    options.docs.inlines = 25;
    options.docs.plain_imports = true;
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(75);
    let schema = project.schema.clone();
    let mut bare = project.clone();
    let mut planter = Planter {
        schema: &schema,
        fragments: Vec::new(),
        next: max_id(&project.docs) + 100,
        planted: 0,
        spreads: 0,
        budget: 0,
        allow_spreads: true,
    };
    for i in 0..project.docs.len() {
        planter.budget = 3;
        let parent = project.docs[i].static_type().to_string();
        let possible = schema.possible(&parent);
        let mut sels = std::mem::take(&mut project.docs[i].sels);
        planter.plant(tape, &mut sels, &parent, &possible, 0);
        project.docs[i].sels = sels;
        let d = &project.docs[i];
        if d.is_fragment() {
            planter.fragments.push((d.main_name().to_string(), parent));
        }
    }
    let (planted, spreads) = (planter.planted, planter.spreads);
    plain_imports(&mut project.docs);
    plain_imports(&mut bare.docs);
    project.print(tape);
    project.note(case);

    let mut wanted: Vec<Wanted> = Vec::new();
    for (i, d) in project.docs.iter().enumerate() {
        let mut c = Collector {
            schema: &schema,
            fragments: project.fragments(),
            doc: i,
            positions: &project.printed[i].positions,
            out: Vec::new(),
        };
        let parent = d.static_type();
        c.walk(&d.sels, parent, &schema.possible(parent));
        wanted.extend(c.out);
    }
    if !project.config.deprecations {
        wanted.retain(|w| !matches!(w.what, What::Deprecated { .. }));
    }
    let (mut deprecated, mut narrow) = (0, 0);
    for w in &wanted {
        match &w.what {
            What::Deprecated { .. } => deprecated += 1,
            What::Narrow { .. } => narrow += 1,
            What::MaybeNarrow { .. } => case.label("fragment inside an impossible one"),
        }
    }
    case.label_if(deprecated > 0, "deprecated fields used, warnings on");
    case.label_if(!project.config.deprecations, "deprecation warnings off");
    case.label_if(narrow > 0, "impossible fragments");
    case.label_if(narrow > planted, "impossible only through nesting");
    case.label_if(spreads > 0, "impossible spreads");
    if deprecated + narrow > 0 {
        case.nontrivial();
    }

    let compiled = accept(case, &project)?;
    let root = compiled.root.to_string_lossy().into_owned();
    let mut left: Vec<Option<&Wanted>> = wanted.iter().map(Some).collect();
    for w in compiled.report.warning_list() {
        if w.level != Level::Warning {
            return violation(format!("not a warning: {w:?}"));
        }
        let mut near = Vec::new();
        let slot = left.iter_mut().find(|s| match s {
            Some(x) => match fits(w, x, &project, &root) {
                Ok(()) => true,
                Err(e) => {
                    if e != "elsewhere" {
                        near.push(e);
                    }
                    false
                }
            },
            None => false,
        });
        match slot {
            Some(s) => *s = None,
            None => {
                return violation(format!(
                    "unexpected warning {w:?} ({})\nwanted: {left:#?}\n{}",
                    near.join("; "),
                    compiled.ran.describe()
                ))
            }
        }
    }
    for l in left.into_iter().flatten() {
        if !matches!(l.what, What::MaybeNarrow { .. }) {
            return violation(format!(
                "no warning for {l:?} in {}\n{}",
                project.docs[l.doc].path,
                compiled.ran.describe()
            ));
        }
    }

    // Neither asking for warnings nor what they are about changes the outputs
    let mut other = project.clone();
    other.config.deprecations = !project.config.deprecations;
    let root = case.dir.join("other");
    other.write(&root)?;
    let again = compile(case, &other, &root)?;
    expect_accepted(&again)?;
    if again.files != compiled.files {
        return violation("asking for deprecation warnings changes the outputs");
    }
    if planted > 0 {
        bare.print(tape);
        let root = case.dir.join("bare");
        bare.write(&root)?;
        let without = compile(case, &bare, &root)?;
        expect_accepted(&without)?;
        for (name, text) in &without.files {
            if compiled.files.get(name) != Some(text) {
                return violation(format!(
                    "{name} differs with fragments that cannot apply:\n{}\n--- without:\n{text}",
                    compiled.files.get(name).map_or("(missing)", |s| s)
                ));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P15

fn nasty_description(tape: &mut Tape<'_>) -> String {
    if tape.chance(15) {
        return plain_description(tape);
    }
    let parts = [
        "*/", "/*", "*", "/", "**/", "/**", "*\\/", "//", "\\", "`", "${x}", "\"", "'", "\n", "\n", "\n\n", "\r\n", "\r",
        "\u{2028}", "\u{2029}", "\u{85}", "\t", "\u{a0}", " ", "  ", "☃", "𝒳", "@deprecated", "@see {x}", "export type X = 1;",
        "};", "<!--", "*\u{200b}/", "/*/", "*/*", "//*", "*//", "name", "the", "a b", "\u{0}", "\u{1b}[31m", "readonly x: 1;",
        "* ", " *", "\n*/\n", "\n/", "*\n/", "null", "|", ")", "{{ }}", "\u{feff}",
    ];
    if tape.chance(3) {
        // Much of something
        let part = *tape.pick(&parts);
        let n = *tape.pick(&[12usize, 25, 60, 130, 300]) + tape.below(5);
        return match tape.below(4) {
            0 => (0..n).map(|i| format!("line {i} {part}\n")).collect(),
            1 => format!("{part} word ").repeat(n),
            2 => "/".repeat(n) + &"*".repeat(n + 1) + &"/".repeat(n),
            _ => part.repeat(n),
        };
    }
    let n = tape.below(8);
    (0..n).map(|_| *tape.pick(&parts)).collect()
}

/// Lines of text, without comment delimiters and what surrounds them
fn lines(text: &str) -> Vec<String> {
    text.split('\n')
        .map(|l| l.replace(['*', '/'], "").trim().to_string())
        .filter(|l| !l.is_empty())
        .collect()
}

fn describes(doc: Option<&str>, desc: Option<&str>, deprecated: bool) -> Result<(), String> {
    let want = lines(desc.unwrap_or(""));
    let Some(doc) = doc else {
        if want.is_empty() && !deprecated {
            return Ok(());
        }
        return Err(format!("no comment for {desc:?}, deprecated: {deprecated}"));
    };
    if desc.is_none() && !deprecated {
        return Err(format!("a comment {doc:?} for nothing"));
    }
    let mut got = lines(doc);
    if deprecated && got != want {
        // Wherever it says so
        match got.iter().rposition(|l| l == "@deprecated") {
            Some(i) => {
                got.remove(i);
            }
            None => return Err(format!("not marked as deprecated: {doc:?}")),
        }
    } else if deprecated {
        return Err(format!("not marked as deprecated: {doc:?}"));
    }
    if got != want {
        return Err(format!("says {got:?} instead of {want:?}"));
    }
    Ok(())
}

struct DocChecker<'a> {
    comparer: Comparer<'a>,
    documented: usize,
    ambiguous: usize,
}

impl DocChecker<'_> {
    fn object(&mut self, tys: &[Ty], shapes: &[&ObjShape], place: &str) -> Result<(), String> {
        let mut alts = Vec::new();
        self.comparer.alternatives(tys, place, &mut alts, 0)?;
        for (_, props) in &alts {
            for p in props {
                let here = format!("{place} . {}", p.name);
                let mut options: BTreeSet<(Option<String>, bool)> = BTreeSet::new();
                let mut below: Vec<&ObjShape> = Vec::new();
                for shape in shapes {
                    for e in shape.alts.values().filter_map(|a| a.get(&p.name)) {
                        options.extend(e.docs.iter().cloned());
                        if let Shape::Obj(o) = &e.shape {
                            below.push(o);
                        }
                    }
                }
                let mut errors = Vec::new();
                for (desc, deprecated) in &options {
                    match describes(p.doc.as_deref(), desc.as_deref(), *deprecated) {
                        Ok(()) => {
                            errors.clear();
                            break;
                        }
                        Err(e) => errors.push(e),
                    }
                }
                if !errors.is_empty() {
                    return Err(format!("{here}: {}", errors.join("; or: ")));
                }
                self.documented += usize::from(p.doc.is_some());
                self.ambiguous += usize::from(options.len() > 1);
                if !below.is_empty() {
                    self.object(&ts::unwrap_all(&p.ty), &below, &here)?;
                }
            }
        }
        Ok(())
    }
}

fn global_docs(schema: &Schema, module: &Module, documented: &mut usize) -> Result<(), String> {
    for d in &module.decls {
        match d {
            Decl::Enum { name, doc, .. } => {
                let t = schema.get(name).ok_or(format!("unknown enum {name}"))?;
                describes(doc.as_deref(), t.desc.as_deref(), false).map_err(|e| format!("enum {name}: {e}"))?;
                *documented += usize::from(doc.is_some());
            }
            Decl::Type {
                name,
                ty: Ty::Obj(props),
                ..
            } => {
                let t = schema.get(name).ok_or(format!("unknown input object {name}"))?;
                for p in props {
                    let f = t.field(&p.name).ok_or(format!("unknown member {name}.{}", p.name))?;
                    describes(p.doc.as_deref(), f.desc.as_deref(), f.deprecated)
                        .map_err(|e| format!("{name}.{}: {e}", p.name))?;
                    *documented += usize::from(p.doc.is_some());
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn p15(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.descriptions = 60;
    options.schema.deprecations = 25;
    options.schema.describe = nasty_description;
    options.schema.same_docs = tape.chance(70);
    options.docs.operations = (1, 3);
    options.docs.fragments = (0, 2);
    let mut project = gen_project(tape, &options);
    for t in &mut project.schema.types {
        if t.kind != Kind::Enum && tape.chance(30) {
            t.desc = Some(nasty_description(tape));
        }
    }
    let mut json = project.schema.json();
    // Enum values are described, too
    if let Some(types) = json["data"]["__schema"]["types"].as_array_mut() {
        for t in types {
            if let Some(values) = t["enumValues"].as_array_mut() {
                for v in values {
                    if tape.chance(30) {
                        v["description"] = nasty_description(tape).into();
                    }
                }
            }
        }
    }
    project.schema_text = json.to_string();
    project.note(case);
    let described: BTreeMap<String, String> = project
        .schema
        .types
        .iter()
        .flat_map(|t| {
            t.fields
                .iter()
                .map(move |f| (format!("{}.{}", t.name, f.name), f.desc.clone()))
                .chain([(t.name.clone(), t.desc.clone())])
        })
        .filter_map(|(n, d)| d.map(|d| (n, d)))
        .collect();
    case.note("descriptions", format!("{described:?}"));
    let compiled = accept(case, &project)?;
    let mut documented = 0;
    for (i, doc) in project.docs.iter().enumerate() {
        let module = compiled.module(&doc.output())?;
        if project.may_collide(i) {
            case.exclude("two places of a document may get the same type name");
            continue;
        }
        let context = format!("{}:\n{}", doc.output(), compiled.files[&doc.output()]);
        let shape = project.shape(i);
        let comparer = Comparer {
            schema: &project.schema,
            config: &project.config,
            module: &module,
            aspects: ts::WRAPPERS,
        };
        wrong(comparer.document(doc.main_name(), &shape), &context)?;
        let mut checker = DocChecker {
            comparer,
            documented: 0,
            ambiguous: 0,
        };
        let main = Ty::Name(doc.main_name().to_string(), Vec::new());
        wrong(checker.object(&[main], &[&shape], doc.main_name()), &context)?;
        documented += checker.documented;
        case.label_if(checker.ambiguous > 0, "declarations with different comments");
    }
    if let Some(text) = compiled.files.get(&project.globals_path()) {
        let module = compiled.module(&project.globals_path())?;
        let before = documented;
        wrong(global_docs(&project.schema, &module, &mut documented), text)?;
        case.label_if(documented > before, "comments in the globals module");
    }
    crate::checks::types::check_globals(case, &project, &compiled)?;
    case.label_if(compiled.files.values().any(|t| t.contains("@deprecated")), "deprecated");
    if documented > 0 {
        case.nontrivial();
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P14",
            rule: "random projects with deprecated fields and planted impossible inline fragments and spreads (plain, nested, inside fragments); the multiset of warnings is compared with the model; outputs with and without the option and the planted fragments are compared; non-trivial: at least one warning is due",
            quick_cases: 10_000,
            thorough_cases: 80_000,
            tape: (50, 2000),
            run: p14,
            ..Check::base()
        },
        Check {
            id: "P15",
            rule: "random projects whose fields, input fields, enums and other elements carry adversarial descriptions (comment delimiters in pieces, line separators, code, tags); comments and types are compared with the model; non-trivial: a comment is generated",
            quick_cases: 14_000,
            thorough_cases: 120_000,
            tape: (50, 2000),
            run: p15,
            ..Check::base()
        },
    ]
}
