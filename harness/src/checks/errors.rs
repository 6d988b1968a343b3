//! P09 and P10: what happens to invalid documents, and to the others next to them.

use crate::common::*;
use crate::diag::{self, Diag, Level};
use crate::doc::{gen_layout, print_doc, relative, Doc, DocKind, Field, Import, Sel};
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::faults::{self, Expect, CLASSES, IN_SELECTIONS};
use crate::run::{self, Invocation};
use crate::schema::{FieldDef, Kind, TypeRef};
use crate::tape::Tape;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

// ---------------------------------------------------------------------------------------------
// P10

fn suggested(help: &str) -> BTreeSet<String> {
    match help.split_once("Did you mean") {
        Some((_, list)) => list
            .split('`')
            .skip(1)
            .step_by(2)
            .map(|s| s.to_string())
            .collect(),
        None => BTreeSet::new(),
    }
}

/// What is wrong with a message as the report of a fault
fn mismatch(d: &Diag, path: &str, text: &str, expect: &Expect) -> Option<String> {
    if d.path.as_deref() != Some(path) {
        return Some(format!("points at {:?}, not at {path}", d.path));
    }
    if !expect.texts.is_empty() && !expect.texts.iter().any(|t| d.text.contains(t.as_str())) {
        return Some(format!("says {:?}, not any of {:?}", d.text, expect.texts));
    }
    if expect.at_in_text {
        if let Some((line, col)) = expect.at {
            if !d.text.contains(&format!("{line}:{col}\n")) && !d.text.contains(&format!("{line}:{col} ")) {
                return Some(format!("does not mention {line}:{col}"));
            }
        }
        return None;
    }
    if let Some((line, col)) = expect.at {
        if (d.line, d.col) != (Some(line), Some(col)) {
            return Some(format!("points at {:?}:{:?}, not at {line}:{col}", d.line, d.col));
        }
        let verbatim = text.split('\n').nth(line - 1).unwrap_or("");
        if d.quoted != Some((line, verbatim.to_string())) {
            return Some(format!("quotes {:?}, not {verbatim:?}", d.quoted));
        }
        if d.caret != Some(col) {
            return Some(format!("has the caret in column {:?}, not {col}", d.caret));
        }
    }
    let help = d.help.clone().unwrap_or_default();
    if let Some(names) = &expect.suggestions {
        if suggested(&help) != *names {
            return Some(format!("suggests {:?}, not {names:?}", suggested(&help)));
        }
    }
    if let Some(otherwise) = expect.otherwise {
        if !help.contains(otherwise) {
            return Some(format!("does not help with {otherwise:?}"));
        }
    }
    if let Some(mention) = &expect.help {
        if !help.contains(&format!("`{mention}`")) {
            return Some(format!("does not mention the type {mention}"));
        }
    }
    None
}

/// Every fault is reported once, by a message of its own, and nothing else is
fn matching(errors: &[&Diag], faults: &[(String, String, Expect)], how: &str) -> Outcome {
    if errors.len() != faults.len() {
        return violation(format!(
            "{} errors reported for {} faults {:?}\n{how}",
            errors.len(),
            faults.len(),
            faults.iter().map(|f| (&f.0, &f.2.texts)).collect::<Vec<_>>(),
        ));
    }
    let mut free: Vec<&&Diag> = errors.iter().collect();
    for (path, text, expect) in faults {
        let mut reason = String::new();
        let found = free.iter().position(|d| match mismatch(d, path, text, expect) {
            None => true,
            Some(r) => {
                reason.push_str(&format!("\n{:?} {r}", d.text));
                false
            }
        });
        match found {
            Some(i) => {
                free.remove(i);
            }
            None => {
                return violation(format!(
                    "no message fits {:?} in {path} at {:?}:{reason}\n{how}",
                    expect.texts, expect.at
                ))
            }
        }
    }
    Ok(())
}

fn extra_imports(tape: &mut Tape<'_>, docs: &mut [Doc]) {
    let fragments: Vec<usize> = (0..docs.len()).filter(|i| docs[*i].is_fragment()).collect();
    for i in 0..docs.len() {
        for target in &fragments {
            // No cycles of imports here
            if tape.chance(25) && (*target < i || !docs[i].is_fragment()) {
                let path = relative(&docs[i].path, &docs[*target].path);
                docs[i].imports.push(Import {
                    path,
                    tail: String::new(),
                    target: *target,
                });
            }
        }
    }
}

/// Documents that bring the given one into scope, directly or not
fn importers(docs: &[Doc], target: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::from([target]);
    loop {
        let before = out.len();
        for (i, d) in docs.iter().enumerate() {
            if d.imports.iter().any(|m| out.contains(&m.target)) {
                out.insert(i);
            }
        }
        if out.len() == before {
            out.remove(&target);
            return out;
        }
    }
}

fn depth_of(schema_sels: &[Sel], id: u32, depth: usize) -> Option<usize> {
    for s in schema_sels {
        match s {
            Sel::Field(f) => {
                if f.id == id {
                    return Some(depth);
                }
                if let Some(d) = depth_of(&f.sels, id, depth + 1) {
                    return Some(d);
                }
            }
            Sel::Inline { id: own, sels, .. } => {
                if *own == id {
                    return Some(depth);
                }
                if let Some(d) = depth_of(sels, id, depth + 1) {
                    return Some(d);
                }
            }
            Sel::Spread { id: own, .. } => {
                if *own == id {
                    return Some(depth);
                }
            }
        }
    }
    None
}

/// More fields than documents select, all with similar names
fn look_alikes(tape: &mut Tape<'_>, project: &mut Project) {
    let names = ["alike", "alikes", "Alike", "alike0", "alike1", "alike2", "alike3", "alike4", "alike5", "alike6", "alike7", "blike", "alikee"];
    let count = tape.range(3, names.len());
    for t in project.schema.types.iter_mut() {
        if !matches!(t.kind, Kind::Object | Kind::Interface) {
            continue;
        }
        for name in &names[..count] {
            t.fields.push(FieldDef {
                name: name.to_string(),
                ty: TypeRef::named("Int"),
                desc: None,
                deprecated: false,
            });
        }
    }
    project.schema_text = project.schema.json().to_string();
}

fn p10(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let kind = tape.below(10);
    let mut options = ProjectOptions::default();
    options.docs.fragments = (0, 4);
    options.docs.operations = (1, 3);
    options.docs.depth = tape.range(2, 5);
    let mut project = gen_project(tape, &options);
    if tape.chance(20) {
        case.label("many similar names");
        look_alikes(tape, &mut project);
    }
    extra_imports(tape, &mut project.docs);
    project.config.deprecations = tape.chance(20);
    project.print(tape);
    let root = case.dir.join("root");
    let mut faults: Vec<(String, String, Expect)> = Vec::new();
    // Documents in which errors follow from the planted one
    let mut affected = BTreeSet::new();
    if kind < 2 {
        cycle(tape, case, &mut project, &root, &mut faults);
    } else if kind < 5 {
        // Several faults in one document
        let i = tape.below(project.docs.len());
        let mut doc = project.docs[i].clone();
        let mut planted = Vec::new();
        for k in 0..tape.range(2, 5) as u32 {
            let class = *tape.pick(&IN_SELECTIONS);
            if let Some(e) =
                faults::plant_selection(tape, &project.schema, &project.docs, i, &mut doc, faults::ID + k, class)
            {
                case.label(class);
                planted.push((faults::ID + k, e));
            }
        }
        let layout = gen_layout(tape);
        project.printed[i] = print_doc(tape, &doc, layout);
        case.label_if(planted.len() > 1, "several faults in one document");
        for (id, mut e) in planted {
            e.at = project.printed[i].positions.get(&id).copied();
            case.label_if(depth_of(&doc.sels, id, 0).map_or(false, |d| d > 2), "nested deeply");
            let path = root.join(&doc.path).display().to_string();
            faults.push((path, project.printed[i].text.clone(), e));
        }
    } else {
        let many = if tape.chance(30) { 3 } else { 1 };
        let mut done = BTreeSet::new();
        for _ in 0..many {
            let i = tape.below(project.docs.len());
            let layout = gen_layout(tape);
            let class = *tape.pick(&CLASSES);
            if done.contains(&i) {
                continue;
            }
            if let Some(f) = faults::plant(tape, &project.schema, &project.docs, i, layout, class) {
                done.insert(i);
                case.label(f.class);
                if !IN_SELECTIONS.contains(&f.class) && project.docs[i].is_fragment() {
                    affected.extend(importers(&project.docs, i));
                }
                project.printed[i].text = f.text.clone();
                let path = root.join(&project.docs[i].path).display().to_string();
                faults.push((path, f.text, f.expect));
            }
        }
    }
    project.note(case);
    project.write(&root)?;
    let compiled = compile(case, &project, &root)?;
    let affected: BTreeSet<String> = affected
        .into_iter()
        .map(|i| root.join(&project.docs[i].path).display().to_string())
        .filter(|p| !faults.iter().any(|f| f.0 == *p))
        .collect();
    let errors: Vec<&Diag> = compiled
        .report
        .error_list()
        .into_iter()
        .filter(|d| d.path.as_ref().map_or(true, |p| !affected.contains(p)))
        .collect();
    // Where a faulty document loses a fragment through another fault, there are more errors
    let entangled = project.docs.iter().enumerate().any(|(i, d)| {
        let path = root.join(&d.path).display().to_string();
        faults.iter().any(|f| f.0 == path)
            && reach(&project.docs, i).iter().any(|t| {
                let other = root.join(&project.docs[*t].path).display().to_string();
                other != path && kind >= 5 && faults.iter().any(|f| f.0 == other)
            })
    });
    if entangled {
        case.exclude("faults in documents that import each other");
        return Ok(());
    }
    matching(&errors, &faults, &compiled.ran.describe())?;
    let code = compiled.ran.code;
    if code != Some(i32::from(!faults.is_empty())) {
        return violation(format!("exit status {code:?}\n{}", compiled.ran.describe()));
    }
    for (path, ..) in &faults {
        let rel = Path::new(path).strip_prefix(&root).unwrap().display().to_string();
        if compiled.files.contains_key(&format!("{rel}.d.ts")) {
            return violation(format!("{rel} is wrong, but compiled"));
        }
    }
    case.label_if(
        compiled.report.error_list().iter().any(|d| d.level == Level::ProgramError),
        "program error",
    );
    if !faults.is_empty() {
        case.nontrivial();
    }
    Ok(())
}

/// What a document brings into scope by its imports
fn reach(docs: &[Doc], from: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(k) = todo.pop() {
        for m in &docs[k].imports {
            if out.insert(m.target) {
                todo.push(m.target);
            }
        }
    }
    out
}

/// Adds fragments that spread each other in a ring, and documents that spread into it
fn cycle(
    tape: &mut Tape<'_>,
    case: &mut Case<'_>,
    project: &mut Project,
    root: &Path,
    faults: &mut Vec<(String, String, Expect)>,
) {
    let n = tape.range(1, 5);
    let on = {
        let pool = project.schema.composites();
        tape.pick(&pool).clone()
    };
    let first = project.docs.len();
    let typename = |id: u32| {
        Sel::Field(Field {
            id,
            alias: None,
            name: "__typename".into(),
            sels: Vec::new(),
        })
    };
    let wrap = |tape: &mut Tape<'_>, spread: Sel| -> Vec<Sel> {
        let mut sels = vec![spread];
        for _ in 0..tape.below(3) {
            sels = vec![Sel::Inline {
                id: 0,
                on: on.clone(),
                sels,
            }];
            if tape.chance(40) {
                sels.insert(0, typename(0));
            }
        }
        if tape.chance(50) {
            sels.push(typename(0));
        }
        sels
    };
    for k in 0..n {
        let next = (k + 1) % n;
        let sels = wrap(
            tape,
            Sel::Spread {
                id: faults::ID,
                name: format!("Ring{next}"),
            },
        );
        let dir = *tape.pick(&["", "ring/", "ring/in/"]);
        project.docs.push(Doc {
            kind: DocKind::Fragment(on.clone()),
            root: on.clone(),
            name: Some(format!("Ring{k}")),
            vars: Vec::new(),
            sels,
            path: format!("{dir}ring{k}.graphql"),
            imports: Vec::new(),
        });
    }
    // Documents that lead into the ring
    for k in 0..tape.below(3) {
        let target = tape.below(n);
        let sels = wrap(
            tape,
            Sel::Spread {
                id: faults::ID,
                name: format!("Ring{target}"),
            },
        );
        project.docs.push(Doc {
            kind: DocKind::Fragment(on.clone()),
            root: on.clone(),
            name: Some(format!("Into{k}")),
            vars: Vec::new(),
            sels,
            path: format!("into{k}.graphql"),
            imports: vec![Import {
                path: String::new(),
                tail: String::new(),
                target: first + target,
            }],
        });
    }
    for k in 0..n {
        project.docs[first + k].imports.push(Import {
            path: String::new(),
            tail: String::new(),
            target: first + (k + 1) % n,
        });
    }
    for i in first..project.docs.len() {
        let target = project.docs[i].imports[0].target;
        project.docs[i].imports[0].path = relative(&project.docs[i].path, &project.docs[target].path);
        let layout = gen_layout(tape);
        let printed = print_doc(tape, &project.docs[i], layout);
        let name = project.docs[target].main_name();
        faults.push((
            root.join(&project.docs[i].path).display().to_string(),
            printed.text.clone(),
            Expect {
                texts: vec![format!("cyclic spread of fragment `{name}`")],
                at: printed.positions.get(&faults::ID).copied(),
                ..Expect::default()
            },
        ));
        project.printed.push(printed);
    }
    case.label("cyclic fragments");
    case.label(&format!("ring of {n}"));
}

// ---------------------------------------------------------------------------------------------
// P09

struct Bad {
    path: String,
    contents: Vec<u8>,
    what: &'static str,
    /// Has an output all the same: the one of these contents
    like: Option<Vec<u8>>,
    /// A directory is where its output should be
    blocked: bool,
}

const BAD: [&str; 16] = [
    "planted",
    "several planted",
    "empty",
    "comments only",
    "not UTF-8",
    "unknown type condition",
    "fragment on no type",
    "type condition without fields",
    "mutation without type",
    "unneeded missing import",
    "needed missing import",
    "non-fragment import",
    "type definition",
    "cyclic fragment",
    "output is a directory",
    "import of a broken fragment",
];

fn bad(tape: &mut Tape<'_>, project: &Project, n: usize) -> Option<Bad> {
    let what = *tape.pick(&BAD);
    let i = tape.below(project.docs.len());
    let dir = *tape.pick(&["", "bad/", "sub/", "0/", "zzz/deep/"]);
    let path = format!("{dir}bad{n}.graphql");
    // A copy elsewhere, so imports are spelled from the root
    let mut docs = project.docs.clone();
    docs[i].path = path.clone();
    for k in 0..docs[i].imports.len() {
        let target = docs[i].imports[k].target;
        docs[i].imports[k].path = project.docs[target].path.clone();
        docs[i].imports[k].tail = String::new();
    }
    let layout = gen_layout(tape);
    let text = print_doc(tape, &docs[i], layout).text;
    let mut bad = Bad {
        path,
        contents: Vec::new(),
        what,
        like: None,
        blocked: false,
    };
    let on = docs[i].static_type().to_string();
    let condition = |tape: &mut Tape<'_>, on: String| -> Vec<u8> {
        let mut doc = docs[i].clone();
        let at = tape.below(doc.sels.len() + 1);
        doc.sels.insert(
            at,
            Sel::Inline {
                id: 0,
                on,
                sels: vec![Sel::Field(Field {
                    id: 0,
                    alias: None,
                    name: "id".into(),
                    sels: Vec::new(),
                })],
            },
        );
        print_doc(tape, &doc, layout).text.into_bytes()
    };
    bad.contents = match what {
        "planted" => {
            let class = *tape.pick(&CLASSES);
            faults::plant(tape, &project.schema, &docs, i, layout, class)?.text.into_bytes()
        }
        "several planted" => {
            let mut doc = docs[i].clone();
            let mut some = false;
            for k in 0..tape.range(2, 4) as u32 {
                let class = *tape.pick(&IN_SELECTIONS);
                some |= faults::plant_selection(tape, &project.schema, &docs, i, &mut doc, faults::ID + k, class)
                    .is_some();
            }
            if !some {
                return None;
            }
            print_doc(tape, &doc, layout).text.into_bytes()
        }
        "empty" => tape.pick(&["", "\n", "   ", "\u{feff}", "\n\n,,"]).as_bytes().to_vec(),
        "comments only" => tape
            .pick(&["# nothing", "#\n#\n", "\n # query Q { id }\n"])
            .as_bytes()
            .to_vec(),
        "not UTF-8" => {
            let mut b = text.into_bytes();
            let at = tape.below(b.len() + 1);
            b.insert(at, *tape.pick(&[0xffu8, 0xc0, 0x80, 0xfe]));
            b
        }
        "unknown type condition" => condition(tape, "Nonexistent".into()),
        "type condition without fields" => {
            let mut pool = project.schema.names_of(Kind::Input);
            pool.extend(project.schema.names_of(Kind::Enum));
            pool.push("String".into());
            pool.push("Boolean".into());
            let name = tape.pick(&pool).clone();
            condition(tape, name)
        }
        "fragment on no type" => {
            let mut pool = project.schema.names_of(Kind::Input);
            pool.extend(project.schema.names_of(Kind::Enum));
            pool.push("ID".into());
            pool.push("Nope".into());
            format!("fragment Bad on {} {{ id }}", tape.pick(&pool)).into_bytes()
        }
        "mutation without type" => {
            if project.schema.mutation.is_some() || project.schema.get("Mutation").is_some() {
                return None;
            }
            b"mutation Change { __typename }".to_vec()
        }
        "unneeded missing import" => {
            bad.like = Some(text.clone().into_bytes());
            let line = *tape.pick(&["./missing.graphql", "missing.graphql", "../../nowhere.graphql", ".", "", "sub"]);
            format!("#import \"{line}\"\n{text}").into_bytes()
        }
        "non-fragment import" => {
            bad.like = Some(text.clone().into_bytes());
            let pool: Vec<&Doc> = project.docs.iter().filter(|d| !d.is_fragment()).collect();
            if pool.is_empty() {
                return None;
            }
            format!("#import \"{}\"\n{text}", tape.pick(&pool).path).into_bytes()
        }
        "needed missing import" => {
            let mut doc = docs[i].clone();
            doc.sels.push(Sel::Spread {
                id: 0,
                name: "NotThere".into(),
            });
            let t = print_doc(tape, &doc, layout).text;
            format!("#import \"./missing.graphql\"\n{t}").into_bytes()
        }
        "type definition" => tape
            .pick(&[
                "type Foo { a: Int }",
                "schema { query: Query }",
                "{}",
                "{",
                "query",
                "fragment F on Query",
                "query { }",
                "extend type Query { a: Int }",
                "query Q { a } }",
                "\"text\"",
                "query Q(a: Int) { __typename }",
            ])
            .as_bytes()
            .to_vec(),
        "cyclic fragment" => {
            format!("#import \"{}\"\nfragment Cyc on {on} {{ ...Cyc }}", bad.path).into_bytes()
        }
        "import of a broken fragment" => {
            // Nobody reports the other one here: it is outside the root directory
            b"#import \"../outside.graphql\"\nquery Q { ...Broken }".to_vec()
        }
        _ => {
            bad.blocked = true;
            text.into_bytes()
        }
    };
    Some(bad)
}

/// Counts around the sizes of integers and of plausible limits
const COUNTS: [usize; 22] = [
    0, 1, 2, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000,
];

/// Projects with a number of errors and one of warnings, which the summary and the status tell
fn counted(case: &mut Case<'_>, errors: usize, warnings: usize) -> Outcome {
    let root = case.dir.join(format!("{errors}-{warnings}"));
    let field = |name: &str, deprecated: bool| {
        json!({"name": name, "description": null, "args": [], "type": {"kind": "SCALAR", "name": "Int", "ofType": null},
            "isDeprecated": deprecated, "deprecationReason": if deprecated { json!("old") } else { json!(null) }})
    };
    let schema = json!({"data": {"__schema": {
        "queryType": {"name": "Query"}, "mutationType": null, "subscriptionType": null, "directives": [],
        "types": [
            {"kind": "OBJECT", "name": "Query", "description": null, "interfaces": [], "inputFields": null,
             "enumValues": null, "possibleTypes": null, "fields": [field("good", false), field("old", true)]},
            {"kind": "SCALAR", "name": "Int", "description": null, "interfaces": null, "inputFields": null,
             "enumValues": null, "possibleTypes": null, "fields": null},
        ],
    }}});
    run::write_file(&root.join("schema.json"), schema.to_string())?;
    // Some in one document, the others spread over many
    let mut documents = 0;
    for (count, name) in [(errors, "bad"), (warnings, "old")] {
        let mut left = count;
        let mut n = 0;
        while left > 0 {
            let here = if n == 0 { left.div_ceil(2).min(400) } else { left.min([1, 3, 40, 300][n % 4]) };
            let mut text = format!("query {}{n} {{\n", if name == "bad" { "Bad" } else { "Old" });
            for k in 0..here {
                text.push_str(&format!("  a{k}: {name}\n"));
            }
            text.push_str("}\n");
            run::write_file(&root.join(format!("{name}{n}.graphql")), text)?;
            left -= here;
            n += 1;
            documents += usize::from(name == "old");
        }
    }
    run::write_file(&root.join("good.graphql"), "query Good { good }\n")?;
    documents += 1;
    let mut invocation = Invocation::default().arg("--show-deprecation-warnings").arg(&root);
    invocation.limits = Some((200, 400));
    let compiled = compile_with(case, &invocation, &root, "__generated__/globals.d.ts")?;
    let ran = &compiled.ran;
    let brief: String = ran.out().chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
    let how = format!("with {errors} errors and {warnings} warnings: exit status {:?}, the end is {brief:?}", ran.code);
    if compiled.report.error_list().len() != errors || compiled.report.warning_list().len() != warnings {
        return violation(format!(
            "{} errors and {} warnings reported {how}",
            compiled.report.error_list().len(),
            compiled.report.warning_list().len()
        ));
    }
    wrong(diag::consistent(&compiled.report, ran.code), &how)?;
    let have = compiled.files.keys().filter(|k| k.ends_with(".graphql.d.ts")).count();
    if have != documents {
        return violation(format!("{have} of {documents} documents have an output {how}"));
    }
    Ok(())
}

fn counts(case: &mut Case<'_>) -> Outcome {
    for (i, n) in COUNTS.into_iter().enumerate() {
        counted(case, n, COUNTS[(i * 7 + 3) % COUNTS.len()])?;
    }
    counted(case, 256, 256)?;
    counted(case, 0, 70_000)?;
    counted(case, 65_535, 0)?;
    counted(case, 65_536, 1)?;
    counted(case, 65_537, 65_536)
}

fn healthy(diags: Vec<&Diag>, paths: &BTreeSet<String>) -> BTreeMap<Diag, usize> {
    let mut out = BTreeMap::new();
    for d in diags {
        if d.path.as_ref().map_or(false, |p| paths.contains(p)) {
            *out.entry(d.clone()).or_default() += 1;
        }
    }
    out
}

fn p09(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.fragments = (0, 3);
    options.docs.operations = (1, 4);
    options.schema.deprecations = 25;
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(50);
    let mut bads = Vec::new();
    for n in 0..tape.range(1, 6) {
        bads.extend(bad(tape, &project, n));
    }
    if bads.is_empty() && tape.chance(90) {
        return Ok(());
    }
    project.note(case);
    for b in &bads {
        case.note(format!("{} ({})", b.path, b.what), String::from_utf8_lossy(&b.contents));
        case.label(b.what);
    }
    let globals = project.globals_path();
    let globals_blocked = tape.chance(6);

    // Without them
    let root = case.dir.join("one/root");
    project.write(&root)?;
    for b in &bads {
        if let Some(like) = &b.like {
            run::write_file(&root.join(&b.path), like)?;
        }
    }
    let one = compile(case, &project, &root)?;
    expect_accepted(&one)?;
    wrong(diag::consistent(&one.report, one.ran.code), &one.ran.describe())?;

    // With them; the same path, so that messages can be compared
    std::fs::rename(case.dir.join("one"), case.dir.join("first"))
        .map_err(|e| Stop::Inconclusive(e.to_string()))?;
    project.write(&root)?;
    run::write_file(&root.join("../outside.graphql"), "fragment Broken on Query { __typename")?;
    for b in &bads {
        run::write_file(&root.join(&b.path), &b.contents)?;
        if b.blocked {
            mkdir(&root.join(format!("{}.d.ts", b.path)))?;
        }
    }
    if globals_blocked {
        mkdir(&root.join(&globals))?;
        case.label("globals module cannot be written");
    }
    let two = compile(case, &project, &root)?;
    let how = two.ran.describe();
    wrong(diag::consistent(&two.report, two.ran.code), &how)?;

    let bad_outputs: BTreeSet<String> = bads.iter().map(|b| format!("{}.d.ts", b.path)).collect();
    for name in one.files.keys().chain(two.files.keys()) {
        if globals_blocked && *name == globals {
            continue;
        }
        let (a, b) = (one.files.get(name), two.files.get(name));
        if bad_outputs.contains(name) && !bads.iter().any(|b| b.like.is_some() && format!("{}.d.ts", b.path) == *name) {
            if two.files.contains_key(name) {
                return violation(format!("{name} is generated from a document with errors\n{how}"));
            }
            continue;
        }
        if a != b {
            return violation(format!(
                "{name} differs because of documents with errors:\n{}\n---\n{}\n{how}",
                a.map_or("missing", |s| s),
                b.map_or("missing", |s| s)
            ));
        }
    }
    let paths: BTreeSet<String> = project
        .docs
        .iter()
        .map(|d| root.join(&d.path).display().to_string())
        .collect();
    if healthy(one.report.warning_list(), &paths) != healthy(two.report.warning_list(), &paths) {
        return violation(format!(
            "other warnings than without the documents with errors:\n{}\n---\n{how}",
            one.ran.out()
        ));
    }
    let errors = two.report.error_list();
    let mut unexplained: Vec<&&Diag> = errors.iter().collect();
    for b in &bads {
        let path = root.join(&b.path).display().to_string();
        let before = unexplained.len();
        unexplained.retain(|d| {
            !(d.path.as_deref() == Some(path.as_str())
                || (d.path.is_none() && d.text.contains(&path)))
        });
        if unexplained.len() == before {
            return violation(format!("no error names {} ({})\n{how}", b.path, b.what));
        }
    }
    let globals_shown = root.join(&globals).display().to_string();
    if globals_blocked && one.files.contains_key(&globals) {
        let before = unexplained.len();
        unexplained.retain(|d| !(d.path.is_none() && d.text.contains(&globals_shown)));
        if unexplained.len() + 1 != before {
            return violation(format!("the unwritable globals module is not reported once\n{how}"));
        }
    }
    if let Some(d) = unexplained.first() {
        return violation(format!("an error about something healthy: {d:?}\n{how}"));
    }
    case.label_if(!one.report.warning_list().is_empty(), "healthy documents with warnings");
    case.label_if(bads.len() > 2, "many bad documents");
    if !bads.is_empty() && !one.files.is_empty() {
        case.nontrivial();
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P09",
            fixed: &[("numbers of errors and warnings", counts)],
            rule: "valid projects compiled alone and again together with up to six documents that are wrong in one of 16 ways (13 classes of planted faults among them); non-trivial: there is a wrong document next to compiled ones",
            quick_cases: 9000,
            thorough_cases: 200_000,
            tape: (200, 2500),
            run: p09,
            ..Check::base()
        },
        Check {
            id: "P10",
            rule: "valid projects with planted faults at random places: one of 13 classes in up to three documents, up to five in the selections of one document, or rings of up to five fragments; non-trivial: at least one fault was planted",
            quick_cases: 18_000,
            thorough_cases: 300_000,
            tape: (200, 2500),
            run: p10,
            ..Check::base()
        },
    ]
}


