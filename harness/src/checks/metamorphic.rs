//! P06 and P07: relations between runs over related inputs.

use crate::common::*;
use crate::diag::Diag;
use crate::doc::{spread_names, Doc, DocKind, Field, Fragments, Gen, Import, Registry, Sel};
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::run::{self, Invocation};
use crate::schema::{FieldDef, Schema};
use crate::tape::Tape;
use crate::ts;
use std::collections::BTreeSet;
use std::path::Path;

// ---------------------------------------------------------------------------------------------
// P06

#[derive(Default)]
struct Rewriter<'a> {
    schema: Schema,
    fragments: Fragments<'a>,
    extracted: Vec<Doc>,
    budget: i32,
    replaced: usize,
    split: usize,
    moved: usize,
    impossible: usize,
    deep_replaced: bool,
}

impl Rewriter<'_> {
    fn extract(&mut self, tape: &mut Tape<'_>, on: &str, sels: Vec<Sel>) -> Sel {
        let n = self.extracted.len();
        let name = format!("Extracted{n}");
        let dir = *tape.pick(&["", "sub/", "extracted/deep/"]);
        self.extracted.push(Doc {
            kind: DocKind::Fragment(on.to_string()),
            root: on.to_string(),
            name: Some(name.clone()),
            vars: Vec::new(),
            sels,
            path: format!("{dir}extracted{n}.graphql"),
            imports: Vec::new(),
        });
        Sel::Spread { id: 0, name }
    }

    fn rewrite(&mut self, tape: &mut Tape<'_>, parent: &str, sels: &[Sel], depth: usize) -> Vec<Sel> {
        let mut out = Vec::new();
        for s in sels {
            self.budget -= 1;
            out.push(match s {
                Sel::Field(f) if f.sels.is_empty() => s.clone(),
                Sel::Field(f) => {
                    let base = self.schema.field(parent, &f.name).unwrap().ty.base().to_string();
                    let sels = self.rewrite(tape, &base, &f.sels, depth + 1);
                    Sel::Field(Field { sels, ..f.clone() })
                }
                Sel::Inline { id, on, sels } => {
                    let sels = self.rewrite(tape, on, sels, depth + 1);
                    if tape.chance(25) {
                        self.moved += 1;
                        self.extract(tape, on, sels)
                    } else {
                        Sel::Inline {
                            id: *id,
                            on: on.clone(),
                            sels,
                        }
                    }
                }
                Sel::Spread { name, id } => {
                    if tape.chance(65) && self.budget > 0 {
                        let doc = self.fragments[name];
                        let on = doc.static_type().to_string();
                        self.replaced += 1;
                        self.deep_replaced |= depth > 0 && !spread_names(&doc.sels).is_empty();
                        let sels = self.rewrite(tape, &on, &doc.sels, depth + 1);
                        Sel::Inline { id: *id, on, sels }
                    } else {
                        s.clone()
                    }
                }
            });
        }
        if tape.chance(30) {
            let mut chunks: Vec<Vec<Sel>> = vec![Vec::new()];
            for s in out {
                if !chunks.last().unwrap().is_empty() && tape.chance(40) {
                    chunks.push(Vec::new());
                }
                chunks.last_mut().unwrap().push(s);
            }
            out = Vec::new();
            for chunk in chunks {
                match tape.below(3) {
                    0 => out.extend(chunk),
                    1 => {
                        self.split += 1;
                        out.push(Sel::Inline {
                            id: 0,
                            on: parent.to_string(),
                            sels: chunk,
                        });
                    }
                    _ => {
                        self.moved += 1;
                        let s = self.extract(tape, parent, chunk);
                        out.push(s);
                    }
                }
            }
        }
        out
    }

    /// Adds selections that cannot apply
    fn disturb(&mut self, tape: &mut Tape<'_>, parent: &str, sels: &mut Vec<Sel>) {
        for s in sels.iter_mut() {
            match s {
                Sel::Field(f) if !f.sels.is_empty() => {
                    let base = self.schema.field(parent, &f.name).unwrap().ty.base().to_string();
                    self.disturb(tape, &base, &mut f.sels);
                }
                Sel::Inline { on, sels, .. } => {
                    let on = on.clone();
                    self.disturb(tape, &on, sels);
                }
                _ => {}
            }
        }
        if !tape.chance(20) {
            return;
        }
        let others: Vec<String> = self
            .schema
            .composites()
            .into_iter()
            .filter(|t| !self.schema.overlap(t, parent))
            .collect();
        if others.is_empty() {
            return;
        }
        let on = tape.pick(&others).clone();
        let fields: Vec<FieldDef> = self.schema.get(&on).unwrap().fields.clone();
        let mut inner = Vec::new();
        for f in fields.iter().take(3) {
            let composite = self.schema.is_composite(f.ty.base());
            let alias = if tape.chance(50) { Some(format!("zz{}", tape.below(9))) } else { None };
            inner.push(Sel::Field(Field {
                id: 0,
                alias,
                name: f.name.clone(),
                sels: if composite { vec![typename()] } else { Vec::new() },
            }));
        }
        inner.push(typename());
        let sel = if tape.chance(40) {
            self.extract(tape, &on, inner)
        } else if tape.chance(30) {
            // Only the combination is impossible
            let sels = vec![Sel::Inline {
                id: 0,
                on,
                sels: inner,
            }];
            Sel::Inline {
                id: 0,
                on: parent.to_string(),
                sels,
            }
        } else {
            Sel::Inline {
                id: 0,
                on,
                sels: inner,
            }
        };
        let at = tape.below(sels.len() + 1);
        sels.insert(at, sel);
        self.impossible += 1;
    }
}

fn typename() -> Sel {
    Sel::Field(Field {
        id: 0,
        alias: None,
        name: "__typename".into(),
        sels: Vec::new(),
    })
}

/// Direct imports of everything spread
pub fn plain_imports(docs: &mut [Doc]) {
    let targets: Vec<(String, usize, String)> = docs
        .iter()
        .enumerate()
        .filter(|(_, d)| d.is_fragment())
        .map(|(i, d)| (d.main_name().to_string(), i, d.path.clone()))
        .collect();
    for d in docs.iter_mut() {
        let wanted = spread_names(&d.sels);
        d.imports = targets
            .iter()
            .filter(|t| wanted.contains(&t.0))
            .map(|t| Import {
                path: t.2.clone(),
                tail: String::new(),
                target: t.1,
            })
            .collect();
    }
}

fn p06(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.same_docs = true;
    options.schema.big = tape.chance(20);
    options.docs.fragments = (1, 4);
    options.docs.spreads = 35;
    options.docs.inlines = 20;
    options.docs.plain_imports = true;
    options.docs.variables = false;
    let project = gen_project(tape, &options);
    let mut changed = project.clone();
    let mut rewriter = Rewriter {
        schema: project.schema.clone(),
        fragments: fragments(&project.docs),
        ..Rewriter::default()
    };
    for (i, d) in project.docs.iter().enumerate() {
        rewriter.budget = 200;
        changed.docs[i].sels = rewriter.rewrite(tape, d.static_type(), &d.sels, 0);
    }
    for i in 0..project.docs.len() {
        let parent = changed.docs[i].static_type().to_string();
        let (before, made) = (changed.docs[i].sels.clone(), rewriter.extracted.len());
        let count = rewriter.impossible;
        let mut sels = before.clone();
        rewriter.disturb(tape, &parent, &mut sels);
        // The result has to stay a valid document
        let mut all = changed.docs.clone();
        all[i].sels = sels.clone();
        all.extend(rewriter.extracted.iter().cloned());
        let map = fragments(&all);
        let valid = all
            .iter()
            .all(|d| Registry::default().add(&project.schema, &map, d.static_type(), &d.sels));
        if valid {
            changed.docs[i].sels = sels;
        } else {
            rewriter.extracted.truncate(made);
            rewriter.impossible = count;
        }
    }
    let (replaced, split, moved, impossible) =
        (rewriter.replaced, rewriter.split, rewriter.moved, rewriter.impossible);
    let deep = rewriter.deep_replaced;
    let extracted = std::mem::take(&mut rewriter.extracted);
    drop(rewriter);
    changed.docs.extend(extracted);
    plain_imports(&mut changed.docs);
    changed.print(tape);
    project.note(case);
    for (d, p) in changed.docs.iter().zip(&changed.printed) {
        case.note(format!("rewritten {}", d.path), p.text.clone());
    }
    let root = case.dir.join("one/root");
    project.write(&root)?;
    let one = compile(case, &project, &root)?;
    expect_accepted(&one)?;
    let root = case.dir.join("two/root");
    changed.write(&root)?;
    let two = compile(case, &changed, &root)?;
    expect_accepted(&two)?;
    for d in &project.docs {
        let a = one.module(&d.output())?;
        let b = two.module(&d.output())?;
        if a != b {
            return violation(format!(
                "{} differs after rewriting\nbefore:\n{}\nafter:\n{}",
                d.output(),
                one.files[&d.output()],
                two.files[&d.output()]
            ));
        }
    }
    case.label_if(replaced > 0, "spread replaced by inline fragment");
    case.label_if(deep, "nested spread of a fragment with spreads replaced");
    case.label_if(split > 0, "selection set split into inline fragments");
    case.label_if(moved > 0, "selections moved to a fragment");
    case.label_if(impossible > 0, "impossible spread added");
    if replaced + split + moved + impossible > 0 {
        case.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P07

/// What was printed, without regard to order
fn diag_set(list: &[Diag]) -> Vec<Diag> {
    let mut v = list.to_vec();
    v.sort();
    v
}

fn write_in_order(tape: &mut Tape<'_>, root: &Path, files: &[(String, String)]) -> Result<(), Stop> {
    mkdir(root)?;
    let mut order: Vec<usize> = (0..files.len()).collect();
    tape.shuffle(&mut order);
    // Removed files leave traces in the order of a directory
    if tape.chance(40) {
        for n in 0..tape.range(1, 4) {
            run::write_file(&root.join(format!("temporary{n}.graphql")), "x")?;
        }
        for i in order.iter() {
            run::write_file(&root.join(&files[*i].0), &files[*i].1)?;
        }
        for n in 0..4 {
            let _ = std::fs::remove_file(root.join(format!("temporary{n}.graphql")));
        }
    } else {
        for i in order {
            run::write_file(&root.join(&files[i].0), &files[i].1)?;
        }
    }
    Ok(())
}

/// Makes some documents wrong in ways whose reports list or look up names
fn spoil(tape: &mut Tape<'_>, project: &mut Project) -> bool {
    let mut any = false;
    for i in 0..project.docs.len() {
        if !tape.chance(40) {
            continue;
        }
        any = true;
        let text = project.printed[i].text.clone();
        let doc = &project.docs[i];
        let close = match text.rfind('}') {
            Some(at) => at,
            None => continue,
        };
        let parent = doc.static_type().to_string();
        let extra = match tape.below(5) {
            0 => {
                // Near several field names at once
                let fields = &project.schema.get(&parent).unwrap().fields;
                match fields.first() {
                    Some(f) => format!(" {}X ", f.name),
                    None => " idX ".to_string(),
                }
            }
            1 => " ab ".to_string(),
            2 => " ...Frg ".to_string(),
            3 => " ...F2x ...userFields ".to_string(),
            _ => " ... on Nothing { x } ".to_string(),
        };
        let mut text = text;
        text.insert_str(close, &extra);
        if tape.chance(30) {
            text.insert_str(0, "#import \"nothing/there.graphql\"\n");
        }
        project.printed[i].text = text;
    }
    any
}

fn p07(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    match tape.below(4) {
        0 => same_inputs(tape, case),
        1 => reordered_selections(tape, case),
        2 => reordered_schema(tape, case),
        _ => unrelated_documents(tape, case),
    }
}

fn same_inputs(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.fragments = (0, 5);
    options.docs.operations = (1, 5);
    options.docs.spreads = 30;
    options.docs.defaults = true;
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(70);
    let spoiled = tape.chance(50) && spoil(tape, &mut project);
    let mut files: Vec<(String, String)> = vec![("schema.json".into(), project.schema_text.clone())];
    for (d, p) in project.docs.iter().zip(&project.printed) {
        files.push((d.path.clone(), p.text.clone()));
    }
    // Fragments of the same name, all imported
    if tape.chance(40) {
        let pool = project.schema.composites();
        let on = tape.pick(&pool).clone();
        let n = tape.range(2, 4);
        let mut head = String::new();
        for i in 0..n {
            let path = format!("{}twin{i}.graphql", tape.pick(&["", "twins/", "a/", "z/"]));
            files.push((path.clone(), format!("fragment Twin on {on} {{ k{i}: __typename }}\n")));
            head.push_str(&format!("#import \"{path}\"\n"));
        }
        files.push((
            "uses-twins.graphql".into(),
            format!("{head}fragment UsesTwins on {on} {{ ...Twin }}\n"),
        ));
        case.label("fragments of the same name");
    }
    for (path, text) in files.iter().skip(1) {
        case.note(path.clone(), text.clone());
    }
    case.note("schema", project.schema.sdl());
    let globals = project.globals_path();
    let mut first: Option<(Compiled, String)> = None;
    for n in 0..3 {
        let mut variant = project.config.clone();
        let root = case.dir.join(format!("run{n}/root"));
        write_in_order(tape, &root, &files)?;
        let repeats = if n == 0 { 2 } else { 1 };
        for _ in 0..repeats {
            let mut how = String::new();
            variant.threads = match tape.below(4) {
                0 => None,
                1 => Some(1),
                _ => Some(tape.range(2, 16)),
            };
            let mut invocation = Invocation::default();
            invocation.args = variant.args().into_iter().map(Into::into).collect();
            invocation.args.push(".".into());
            invocation.cwd = Some(root.clone());
            how.push_str(&format!("threads {:?}", variant.threads));
            if let (Some(hooked), true) = (run::hooked_binary(), tape.chance(50)) {
                let seed = tape.raw();
                invocation.binary = Some(hooked.to_path_buf());
                invocation = invocation.env("QLC_SCHED_SEED", seed.to_string());
                how.push_str(&format!(", schedule {seed}"));
                case.label("chosen schedule");
            }
            let compiled = compile_with(case, &invocation, &root, &globals)?;
            match &first {
                None => first = Some((compiled, how)),
                Some((a, a_how)) => same(a, &compiled, true, &format!("{a_how} / {how}"))?,
            }
        }
    }
    let (a, _) = first.unwrap();
    case.label_if(spoiled, "with errors");
    case.label_if(!a.report.warning_list().is_empty(), "with warnings");
    case.label("repeated runs");
    if files.len() > 3 {
        case.nontrivial();
    }
    Ok(())
}

fn same(a: &Compiled, b: &Compiled, diags: bool, how: &str) -> Outcome {
    if a.ran.code != b.ran.code {
        return violation(format!(
            "exit status differs ({how}):\n{}\n{}",
            a.ran.describe(),
            b.ran.describe()
        ));
    }
    for name in a.files.keys().chain(b.files.keys()) {
        if a.files.get(name) != b.files.get(name) {
            return violation(format!(
                "{name} differs ({how}):\n{}\n---\n{}",
                a.files.get(name).map_or("missing", |s| s),
                b.files.get(name).map_or("missing", |s| s)
            ));
        }
    }
    if diags && diag_set(&a.report.diags) != diag_set(&b.report.diags) {
        return violation(format!(
            "diagnostics differ ({how}):\n{}\n---\n{}",
            a.ran.out(),
            b.ran.out()
        ));
    }
    Ok(())
}

fn shuffle_sels(tape: &mut Tape<'_>, sels: &mut [Sel]) {
    tape.shuffle(sels);
    for s in sels.iter_mut() {
        match s {
            Sel::Field(f) => shuffle_sels(tape, &mut f.sels),
            Sel::Inline { sels, .. } => shuffle_sels(tape, sels),
            Sel::Spread { .. } => {}
        }
    }
}

fn reordered_selections(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.covariant = false;
    options.schema.same_docs = true;
    options.docs.fragments = (0, 4);
    options.docs.operations = (1, 3);
    let project = gen_project(tape, &options);
    let mut changed = project.clone();
    for d in &mut changed.docs {
        shuffle_sels(tape, &mut d.sels);
        if tape.chance(50) {
            tape.shuffle(&mut d.imports);
        }
    }
    changed.print(tape);
    let moved = (0..project.docs.len()).any(|i| format!("{:?}", project.docs[i].sels) != format!("{:?}", changed.docs[i].sels));
    project.note(case);
    for (d, p) in changed.docs.iter().zip(&changed.printed) {
        case.note(format!("reordered {}", d.path), p.text.clone());
    }
    compare_projects(case, &project, &changed)?;
    case.label("selections reordered");
    if moved {
        case.nontrivial();
    }
    Ok(())
}

fn compare_projects(case: &mut Case<'_>, project: &Project, changed: &Project) -> Outcome {
    let root = case.dir.join("one/root");
    project.write(&root)?;
    let one = compile(case, project, &root)?;
    expect_accepted(&one)?;
    let root = case.dir.join("two/root");
    changed.write(&root)?;
    let two = compile(case, changed, &root)?;
    expect_accepted(&two)?;
    same(&one, &two, false, "after reordering")
}

/// Everything whose order means nothing, and the order of keys in JSON objects
pub fn shuffle_schema(tape: &mut Tape<'_>, schema: &mut Schema) {
    tape.shuffle(&mut schema.types);
    for t in &mut schema.types {
        tape.shuffle(&mut t.fields);
        tape.shuffle(&mut t.possible);
        tape.shuffle(&mut t.interfaces);
        tape.shuffle(&mut t.values);
    }
}

/// JSON text with the keys of all objects in a random order
pub fn shuffled_json(tape: &mut Tape<'_>, v: &serde_json::Value) -> String {
    match v {
        serde_json::Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            tape.shuffle(&mut keys);
            let parts: Vec<String> = keys
                .into_iter()
                .map(|k| format!("{}:{}", serde_json::Value::String(k.clone()), shuffled_json(tape, &m[k])))
                .collect();
            format!("{{{}}}", parts.join(","))
        }
        serde_json::Value::Array(a) => {
            let parts: Vec<String> = a.iter().map(|v| shuffled_json(tape, v)).collect();
            format!("[{}]", parts.join(","))
        }
        other => other.to_string(),
    }
}

fn reordered_schema(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.schema.big = tape.chance(30);
    options.docs.fragments = (0, 3);
    options.docs.operations = (1, 4);
    let project = gen_project(tape, &options);
    let mut changed = project.clone();
    shuffle_schema(tape, &mut changed.schema);
    changed.schema_text = if tape.chance(50) {
        shuffled_json(tape, &changed.schema.json())
    } else {
        changed.schema.json().to_string()
    };
    project.note(case);
    case.note("reordered schema", changed.schema.sdl());
    compare_projects(case, &project, &changed)?;
    case.label("schema reordered");
    if project.schema.sdl() != changed.schema.sdl() {
        case.nontrivial();
    }
    Ok(())
}

fn unrelated_documents(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.operations = (1, 2);
    let project = gen_project(tape, &options);
    // More documents over the same schema, in directories of their own
    let mut changed = project.clone();
    let more_options = crate::doc::DocOptions {
        operations: (1, 4),
        fragments: (0, 3),
        prefix: project.config.prefix.clone(),
        plain_imports: true,
        ..Default::default()
    };
    let mut more = Gen::new(&project.schema, &more_options).project(tape);
    let nest = *tape.pick(&["more/", "zz/", "sub/more/", "0/"]);
    for d in &mut more {
        d.path = format!("{nest}{}", d.path);
        for i in &mut d.imports {
            i.path = format!("{nest}{}", i.path);
            i.target += project.docs.len();
        }
    }
    // The names may well be those of the other documents
    changed.docs.extend(more);
    changed.print(tape);
    for i in 0..project.printed.len() {
        changed.printed[i] = project.printed[i].clone();
    }
    let broken = tape.chance(30);
    if broken {
        let last = changed.printed.len() - 1;
        changed.printed[last].text.push_str("}");
        case.label("an unrelated document is wrong");
    }
    changed.note(case);
    let root = case.dir.join("one/root");
    project.write(&root)?;
    let one = compile(case, &project, &root)?;
    expect_accepted(&one)?;
    let root = case.dir.join("two/root");
    changed.write(&root)?;
    let two = compile(case, &changed, &root)?;
    if !broken {
        expect_accepted(&two)?;
    }
    let globals = project.globals_path();
    for d in &project.docs {
        let (a, b) = (one.files.get(&d.output()), two.files.get(&d.output()));
        if a != b {
            return violation(format!(
                "{} changes through documents it does not import:\n{}\n---\n{}",
                d.output(),
                a.map_or("missing", |s| s),
                b.map_or("missing", |s| s)
            ));
        }
    }
    // The globals module may only grow
    let before: BTreeSet<String> = match one.files.get(&globals) {
        Some(_) => names(&one.module(&globals)?),
        None => BTreeSet::new(),
    };
    if !before.is_empty() {
        let after = names(&two.module(&globals)?);
        if !before.is_subset(&after) {
            return violation(format!("{globals} lost names: {before:?} {after:?}"));
        }
    }
    case.label("unrelated documents added");
    case.nontrivial();
    Ok(())
}

fn names(module: &ts::Module) -> BTreeSet<String> {
    module
        .decls
        .iter()
        .filter_map(|d| match d {
            ts::Decl::Type { name, .. } | ts::Decl::Enum { name, .. } => Some(name.clone()),
            _ => None,
        })
        .collect()
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P06",
            rule: "valid projects and a rewriting of every document: spreads replaced by inline fragments, selections moved to new imported fragments, selection sets split into inline fragments on the same type, impossible spreads added; non-trivial: at least one rewriting step was applied",
            quick_cases: 9000,
            thorough_cases: 200_000,
            tape: (200, 2500),
            run: p06,
            ..Check::base()
        },
        Check {
            id: "P07",
            rule: "groups of runs: the same inputs with other thread counts, schedules and creation orders; selections reordered; schema members and JSON keys reordered; unrelated documents added; non-trivial: the inputs really differ or have several documents",
            quick_cases: 6000,
            thorough_cases: 120_000,
            hooked: true,
            tape: (200, 2500),
            run: p07,
            ..Check::base()
        },
    ]
}
