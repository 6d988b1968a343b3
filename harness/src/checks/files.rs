//! P12 and P18: what runs write, repeat, and leave behind when they fail or are ended.

use crate::common::*;
use crate::diag;
use crate::engine::{inconclusive, violation, Case, Check, Outcome, Stop};
use crate::faults;
use crate::run::{self, expect_clean, snapshot, Invocation, Ran};
use crate::shim::{self, Fault, Op};
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

type Files = BTreeMap<String, Vec<u8>>;

fn show_difference(a: &Files, b: &Files) -> String {
    let mut out = String::new();
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            let text = |f: &Files| match f.get(k) {
                None => "(missing)".to_string(),
                Some(t) => String::from_utf8_lossy(t).into_owned(),
            };
            out.push_str(&format!("--- {k}\n{}\n--- instead of\n{}\n", text(a), text(b)));
        }
    }
    out
}

fn junk(tape: &mut Tape<'_>, clean: Option<&Vec<u8>>) -> Vec<u8> {
    let own = clean.cloned().unwrap_or_else(|| b"export type Old = { a: string; };\n".to_vec());
    match tape.below(14) {
        0 => Vec::new(),
        1 => own[..own.len() / 2].to_vec(),
        2 => {
            let mut v = own;
            v.extend_from_slice(b"\nexport type Stale = never;\n");
            v
        }
        3 => vec![0xff, 0xfe, 0, b'\n', 7],
        4 => b"// something else\n".repeat(tape.range(1, 400)),
        5 => {
            let mut v = own;
            v.reverse();
            v
        }
        6 => own[..own.len().saturating_sub(1)].to_vec(),
        // All but the same
        7 => [&own[..], &tape.pick(&["\n", " ", "\r\n", "\0", "\n\n"]).as_bytes()].concat(),
        8 => String::from_utf8_lossy(&own).replace('\n', "\r\n").into_bytes(),
        9 => [b"\xef\xbb\xbf", &own[..]].concat(),
        10 => String::from_utf8_lossy(&own).to_ascii_lowercase().into_bytes(),
        11 => {
            let mut v = own;
            if !v.is_empty() {
                let i = tape.below(v.len());
                v[i] = if v[i] == b' ' { b'\t' } else { b' ' };
            }
            v
        }
        12 => String::from_utf8_lossy(&own).split_whitespace().collect::<Vec<_>>().join(" ").into_bytes(),
        _ => b"\n".to_vec(),
    }
}

// ---------------------------------------------------------------------------------------------
// P12

/// Identity of a file that must not be touched
fn marks(dir: &Path, names: impl Iterator<Item = String>) -> BTreeMap<String, (u64, u32, i64, i64)> {
    names
        .filter_map(|n| {
            let path = dir.join(n.trim_end_matches(['/', '@', '|']));
            let m = std::fs::symlink_metadata(path).ok()?;
            // Time of directories changes with the files in them
            let (s, ns) = if m.is_dir() { (0, 0) } else { (m.mtime(), m.mtime_nsec()) };
            Some((n, (m.ino(), m.mode(), s, ns)))
        })
        .collect()
}

struct World<'a> {
    project: &'a Project,
    /// Present text of each document
    texts: Vec<Option<String>>,
    root_arg: usize,
}

impl World<'_> {
    fn write_docs(&self, root: &Path) -> Outcome {
        // The directory of the globals module stays when all of its documents go
        if let Some(dir) = root.join(self.project.globals_path()).parent() {
            mkdir(dir)?;
        }
        for (d, t) in self.project.docs.iter().zip(&self.texts) {
            let path = root.join(&d.path);
            match t {
                Some(t) => {
                    if std::fs::read_to_string(&path).ok().as_ref() != Some(t) {
                        run::write_file(&path, t)?;
                    }
                }
                None => {
                    let _ = std::fs::remove_file(&path);
                }
            }
        }
        Ok(())
    }

    /// `base` holds the schema and the root directory
    fn invocation(&self, base: &Path) -> Invocation {
        let mut i = Invocation::default();
        i.args = self.project.config.args().into_iter().map(Into::into).collect();
        let schema = base.join("the-schema.json");
        match self.root_arg {
            0 => {
                i.cwd = Some(base.to_path_buf());
                i.args.push("-s".into());
                i.args.push("the-schema.json".into());
                i.args.push("root".into());
            }
            1 => {
                i.cwd = Some(base.join("root"));
                i.args.push("-s".into());
                i.args.push("../the-schema.json".into());
            }
            2 => {
                i.cwd = Some(base.join("elsewhere"));
                i.args.push("-s".into());
                i.args.push(schema.into());
                i.args.push("../root/".into());
            }
            _ => {
                i.cwd = Some(base.join("elsewhere"));
                i.args.push("--schema-path".into());
                i.args.push(schema.into());
                i.args.push(base.join("root").into());
            }
        }
        i
    }
}

const BYSTANDERS: [&str; 22] = [
    "root/old.graphql.d.ts",
    "root/graphql-globals",
    "root/graphql-globals.d.ts",
    "root/graphql-globals.ts.bak",
    "root/graphql-globals.js",
    "root/types.d.ts",
    "root/a.graphql.d.ts.bak",
    "root/a.graphql.ts",
    "root/a.d.ts",
    "root/a.ts",
    "root/schema.json",
    "root/sub/keep.txt",
    "root/sub/Q1.d.ts",
    "root/.qlcrc.json.bak",
    "root/deep/er/.hidden",
    "root/node_modules/x/index.d.ts",
    "root/a.gql",
    "root/index.tsx",
    "elsewhere/graphql-globals.ts",
    "elsewhere/a.graphql",
    "elsewhere/a.graphql.d.ts",
    "graphql-globals.ts",
];

fn p12(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.operations = (1, 3);
    options.docs.fragments = (0, 3);
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(50);
    project.note(case);
    let globals = project.globals_path();
    let mut world = World {
        project: &project,
        texts: project.printed.iter().map(|p| Some(p.text.clone())).collect(),
        root_arg: tape.below(4),
    };
    let base = case.dir.join("w");
    for d in ["root", "elsewhere"] {
        mkdir(&base.join(d))?;
    }
    let schema = project.schema_text.clone();
    run::write_file(&base.join("the-schema.json"), &schema)?;
    let mut outputs: BTreeSet<String> = project.docs.iter().map(|d| d.output()).collect();
    outputs.insert(globals.clone());
    let mut bystanders = Vec::new();
    for _ in 0..tape.below(6) {
        let name = *tape.pick(&BYSTANDERS);
        let inner = name.strip_prefix("root/").unwrap_or("");
        if outputs.contains(inner) || project.docs.iter().any(|d| d.path == inner) {
            continue;
        }
        let text = junk(tape, None);
        run::write_file(&base.join(name), text)?;
        let mode = *tape.pick(&[0o644, 0o400, 0o755]);
        let _ = std::fs::set_permissions(base.join(name), std::fs::Permissions::from_mode(mode));
        bystanders.push(name);
    }
    if tape.chance(20) {
        let _ = std::os::unix::fs::symlink("../the-schema.json", base.join("root/link.graphql.d.ts"));
    }
    case.note("root argument", world.root_arg.to_string());
    case.note("bystanders", format!("{bystanders:?}"));

    let steps = tape.range(1, 4);
    let mut history = String::new();
    let mut edits = 0;
    for step in 0..steps {
        // Edit the documents
        if step > 0 || tape.chance(25) {
            for _ in 0..tape.below(3) {
                let i = tape.below(project.docs.len());
                edits += 1;
                let was = world.texts[i].clone();
                world.texts[i] = match tape.below(6) {
                    0 => None,
                    1 => Some("query { nope".to_string()),
                    2 if !project.docs[i].is_fragment() => Some("query Minimal { __typename }\n".into()),
                    3 => {
                        let class = *tape.pick(&faults::CLASSES);
                        let layout = crate::doc::Layout::Pretty;
                        faults::plant(tape, &project.schema, &project.docs, i, layout, class)
                            .map(|f| f.text)
                            .or(was)
                    }
                    4 => was.map(|t| format!("{t}\n# edited {step}\n")),
                    _ => Some(project.printed[i].text.clone()),
                };
                history.push_str(&format!(
                    "step {step}: {} is now {:?}\n",
                    project.docs[i].path, world.texts[i]
                ));
            }
        }
        // What a clean tree gives
        let clean = case.dir.join(format!("c{step}"));
        for d in ["root", "elsewhere"] {
            mkdir(&clean.join(d))?;
        }
        run::write_file(&clean.join("the-schema.json"), &schema)?;
        world.write_docs(&clean.join("root"))?;
        let before_clean = snapshot(&clean);
        case.stats.runs += 1;
        let mut invocation = world.invocation(&clean);
        let log = case.dir.join("clean.log");
        let watched = tape.chance(50);
        if watched {
            shim::instrument(&mut invocation, &clean, Some(&log), &[], None);
        }
        let clean_ran = run::run(&invocation)?;
        expect_clean(&clean_ran)?;
        if watched {
            // Whatever else it wrote for a while may as well be the name of someone's file
            for op in shim::read_log(&log) {
                if op.kind != "create" && op.kind != "rename" {
                    continue;
                }
                let path = base.join(&op.path);
                let inner = op.path.strip_prefix("root/").unwrap_or("");
                if !outputs.contains(inner) && path.parent().map_or(false, |p| p.is_dir()) && !path.exists() {
                    run::write_file(&path, "Someone's\n")?;
                    history.push_str(&format!("step {step}: {} is written in between\n", op.path));
                }
            }
        }
        let after_clean = snapshot(&clean);
        let report = match diag::parse(&clean_ran.out()) {
            Ok(r) => r,
            Err(e) => return violation(format!("{e}; {}", clean_ran.describe())),
        };
        // Only outputs are new
        let mut produced: Files = BTreeMap::new();
        for (name, text) in &after_clean {
            match before_clean.get(name) {
                Some(t) if t == text => {}
                Some(_) => return violation(format!("{name} was changed; {}", clean_ran.describe())),
                None => {
                    let inner = name.strip_prefix("root/").unwrap_or(name);
                    let source = inner.strip_suffix(".d.ts").map(|s| format!("root/{s}"));
                    let of_document = inner != name
                        && source.map_or(false, |s| s.ends_with(".graphql") && before_clean.contains_key(&s));
                    if !of_document && inner != globals {
                        return violation(format!("{name} was written; {}", clean_ran.describe()));
                    }
                    produced.insert(name.clone(), text.clone());
                }
            }
        }
        for name in before_clean.keys() {
            if !after_clean.contains_key(name) {
                return violation(format!("{name} was removed; {}", clean_ran.describe()));
            }
        }
        for (d, t) in project.docs.iter().zip(&world.texts) {
            let blamed = report
                .error_list()
                .iter()
                .any(|e| e.path.as_deref().map_or(true, |p| p.ends_with(&d.path)));
            if t.is_some() && !blamed && !produced.contains_key(&format!("root/{}", d.output())) {
                return violation(format!("{} has no output; {}", d.path, clean_ran.describe()));
            }
        }
        // The tree with a past
        world.write_docs(&base.join("root"))?;
        for name in &outputs {
            let path = base.join("root").join(name);
            if tape.chance(35) {
                let text = junk(tape, produced.get(&format!("root/{name}")));
                run::write_file(&path, text)?;
                case.label("stale output");
            } else if tape.chance(15) {
                let _ = std::fs::remove_file(&path);
            }
            if tape.chance(10) {
                let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o444));
            }
        }
        for repeat in 0..2 {
            let before = snapshot(&base);
            let untouched = |name: &String| !produced.contains_key(name);
            let marked = marks(&base, before.keys().filter(|n| untouched(n)).cloned());
            case.stats.runs += 1;
            let ran = run::run(&world.invocation(&base))?;
            expect_clean(&ran)?;
            let after = snapshot(&base);
            let mut wanted = before.clone();
            wanted.extend(produced.clone());
            if after != wanted {
                return violation(format!(
                    "step {step}, run {repeat}: {}{}",
                    show_difference(&after, &wanted),
                    ran.describe()
                ));
            }
            let now = marks(&base, marked.keys().cloned());
            if now != marked {
                let names: Vec<&String> = marked.keys().filter(|k| now.get(*k) != marked.get(*k)).collect();
                return violation(format!("touched without need: {names:?}; {}", ran.describe()));
            }
            let strip = |r: &Ran, b: &Path| r.out().replace(&*b.to_string_lossy(), "");
            let mut a: Vec<String> = strip(&ran, &base).split("\n\n").map(String::from).collect();
            let mut b: Vec<String> = strip(&clean_ran, &clean).split("\n\n").map(String::from).collect();
            a.sort();
            b.sort();
            if ran.code != clean_ran.code || a != b {
                return violation(format!(
                    "step {step}, run {repeat}: says\n{}\ninstead of\n{}",
                    ran.describe(),
                    clean_ran.describe()
                ));
            }
        }
        case.label_if(clean_ran.code == Some(1), "run with errors");
        let _ = std::fs::remove_dir_all(&clean);
    }
    case.note("history", history);
    case.label_if(edits > 0, "documents edited between runs");
    case.label_if(!bystanders.is_empty(), "bystanders");
    case.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// P18

struct Place<'a> {
    project: &'a Project,
    config_file: Option<String>,
    schema_elsewhere: bool,
    args: Vec<String>,
}

impl Place<'_> {
    fn write(&self, base: &Path) -> Outcome {
        let root = base.join("root");
        self.project.write(&root)?;
        if self.schema_elsewhere {
            let _ = std::fs::remove_file(root.join("schema.json"));
            run::write_file(&base.join("s/schema.json"), &self.project.schema_text)?;
        }
        if let Some(c) = &self.config_file {
            run::write_file(&base.join(".qlcrc.json"), c)?;
        }
        Ok(())
    }
    fn invocation(&self, base: &Path) -> Invocation {
        let mut i = Invocation::default();
        i.args = self.args.iter().map(Into::into).collect();
        if self.schema_elsewhere {
            i.args.push("-s".into());
            i.args.push("s/schema.json".into());
        }
        i.args.push("root".into());
        i.cwd = Some(base.to_path_buf());
        i
    }
    fn schema_path(&self) -> &'static str {
        if self.schema_elsewhere {
            "s/schema.json"
        } else {
            "root/schema.json"
        }
    }
    /// Paths (below the base, normalised) whose failure may keep a document from being compiled
    fn needs(&self, i: usize) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut todo = vec![i];
        let mut seen = BTreeSet::new();
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            let d = &self.project.docs[i];
            out.insert(format!("root/{}", d.path));
            todo.extend(d.imports.iter().map(|im| im.target));
        }
        let d = &self.project.docs[i];
        out.insert(format!("root/{}", d.output()));
        let mut dir = PathBuf::from(format!("root/{}", d.path));
        while dir.pop() {
            out.insert(dir.to_string_lossy().into_owned());
        }
        out.insert(self.schema_path().into());
        out.insert(".qlcrc.json".into());
        out
    }
}

/// Without `.` and `..`
fn normal(path: &str) -> String {
    let mut parts: Vec<&str> = Vec::new();
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            p => parts.push(p),
        }
    }
    parts.join("/")
}

struct Reference {
    before: Files,
    after: Files,
    log: Vec<Op>,
}

fn reference(case: &mut Case<'_>, place: &Place<'_>) -> Result<Reference, Stop> {
    let clean = case.dir.join("clean");
    place.write(&clean)?;
    let before = snapshot(&clean);
    let log = case.dir.join("log");
    let mut invocation = place.invocation(&clean);
    shim::instrument(&mut invocation, &clean, Some(&log), &[], None);
    case.stats.runs += 1;
    let ran = run::run(&invocation)?;
    expect_clean(&ran)?;
    if ran.code != Some(0) {
        return violation(format!("a valid project is rejected: {}", ran.describe()));
    }
    let after = snapshot(&clean);
    Ok(Reference {
        before,
        after,
        log: shim::read_log(&log),
    })
}

/// One run with faults; what the tree may look like afterwards is checked
fn faulted(case: &mut Case<'_>, place: &Place<'_>, reference: &Reference, base: &Path, plan: &[Fault]) -> Outcome {
    let log = case.dir.join("log");
    let mut invocation = place.invocation(base);
    shim::instrument(&mut invocation, base, Some(&log), plan, None);
    let before = snapshot(base);
    case.stats.runs += 1;
    let ran = run::run(&invocation)?;
    let after = snapshot(base);
    let log = shim::read_log(&log);
    let reached: Vec<&Fault> = plan.iter().filter(|f| f.reached(&log)).collect();
    for f in &reached {
        case.label(&format!("{} {}", f.kind, f.action));
    }
    let context = || {
        let lines: Vec<String> = plan.iter().map(|f| f.show()).collect();
        format!("faults:\n{}\n{}", lines.join("\n"), ran.describe())
    };
    // No source is damaged, nothing but outputs appears
    for (name, text) in &reference.before {
        if after.get(name) != Some(text) {
            return violation(format!(
                "{name} was damaged: {:?}\n{}",
                after.get(name).map(|t| String::from_utf8_lossy(t)),
                context()
            ));
        }
    }
    let killed = reached.iter().any(|f| f.is_kill());
    if killed {
        if ran.signal != Some(libc::SIGKILL) {
            return inconclusive(format!("not killed: {}", context()));
        }
        return Ok(());
    }
    if ran.timed_out() {
        return inconclusive(format!("killed: {}", context()));
    }
    if !matches!(ran.code, Some(0) | Some(1)) {
        return violation(format!("the run did not end with a report: {}", context()));
    }
    let report = match diag::parse(&ran.out()) {
        Ok(r) => r,
        Err(e) => return violation(format!("{e}; {}", context())),
    };
    let errors = report.error_list();
    let named = |path: &str| {
        let bare = path.strip_suffix(".d.ts").unwrap_or(path);
        let base_name = bare.rsplit('/').next().unwrap_or(bare);
        errors.iter().any(|e| {
            let all = format!("{} {}", e.whole(), e.path.as_deref().unwrap_or(""));
            all.contains(base_name)
        })
    };
    let (mut must_fail, mut may_fail) = (false, false);
    for f in &reached {
        let basic = matches!(
            f.kind.as_str(),
            "open" | "create" | "read" | "write" | "opendir" | "readdir"
        );
        if f.is_hard() && basic {
            must_fail = true;
            let path = normal(&f.path);
            if !named(&path) {
                return violation(format!("no error names {path}\n{}", context()));
            }
        } else {
            may_fail |= f.action != "short" || !basic;
        }
    }
    if must_fail && ran.code != Some(1) {
        return violation(format!("exits {:?} after a failure\n{}", ran.code, context()));
    }
    if ran.code == Some(1) && errors.is_empty() {
        return violation(format!("fails without an error\n{}", context()));
    }
    if !must_fail && !may_fail && ran.code != Some(0) {
        return violation(format!("fails without a failure\n{}", context()));
    }
    let faulted: BTreeSet<String> = reached.iter().map(|f| normal(&f.path)).collect();
    if ran.code == Some(0) {
        // As if nothing had happened
        for (name, text) in &reference.after {
            if after.get(name) != Some(text) {
                return violation(format!("succeeds, but {name} is wrong\n{}", context()));
            }
        }
    }
    // Documents that have nothing to do with the faults are compiled
    let mut all = true;
    for (i, d) in place.project.docs.iter().enumerate() {
        if !place.needs(i).is_disjoint(&faulted) {
            all = false;
            continue;
        }
        let name = format!("root/{}", d.output());
        if after.get(&name) != reference.after.get(&name) {
            return violation(format!("{name} suffers from another file's failure\n{}", context()));
        }
    }
    let globals = format!("root/{}", place.project.globals_path());
    if all && !faulted.contains(&globals) && !faulted.contains("root") {
        if let Some(text) = reference.after.get(&globals) {
            if after.get(&globals) != Some(text) {
                return violation(format!("{globals} suffers from another file's failure\n{}", context()));
            }
        }
    }
    // Nothing but sources, outputs and what was there
    for name in after.keys() {
        if !reference.after.contains_key(name) && !before.contains_key(name) {
            case.label("left something behind");
        }
    }
    Ok(())
}

fn recover(case: &mut Case<'_>, place: &Place<'_>, reference: &Reference, base: &Path, plans: &str) -> Outcome {
    case.stats.runs += 1;
    let ran = run::run(&place.invocation(base))?;
    expect_clean(&ran)?;
    let after = snapshot(base);
    if ran.code != Some(0) || after != reference.after {
        return violation(format!(
            "a rerun does not repair: {}faults before:\n{plans}\n{}",
            show_difference(&after, &reference.after),
            ran.describe()
        ));
    }
    Ok(())
}

fn choose_faults(tape: &mut Tape<'_>, ops: &[Op]) -> Vec<Fault> {
    let count = if tape.chance(60) { 1 } else { tape.range(2, 4) };
    let mut plan: Vec<Fault> = (0..count)
        .map(|_| {
            // Rare operations as often as frequent ones
            let kinds: BTreeSet<&str> = ops.iter().map(|o| o.kind.as_str()).collect();
            let kinds: Vec<&str> = kinds.into_iter().collect();
            let kind = *tape.pick(&kinds);
            let of_kind: Vec<&Op> = ops.iter().filter(|o| o.kind == kind).collect();
            let op = *tape.pick(&of_kind);
            let action = *tape.pick(shim::actions(kind));
            let all = tape.chance(25) && !matches!(action, "eintr" | "kill" | "halfkill");
            Fault {
                kind: kind.to_string(),
                n: if all { 0 } else { op.n },
                path: op.path.clone(),
                action,
            }
        })
        .collect();
    // One for each kind of operation on a file, else it is not clear which happens
    let mut seen = BTreeSet::new();
    plan.retain(|f| seen.insert((f.kind.clone(), f.path.clone())));
    plan
}

fn usable(log: &[Op]) -> Vec<Op> {
    log.iter().filter(|o| o.kind != "thread").cloned().collect()
}

fn p18(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.operations = (1, 3);
    options.docs.fragments = (0, 3);
    let mut project = gen_project(tape, &options);
    project.config.threads = Some(*tape.pick(&[1, 1, 2, 4, 8]));
    let place = Place {
        args: project.config.args(),
        config_file: if tape.chance(40) {
            Some(r#"{"showDeprecationWarnings": false}"#.to_string())
        } else {
            None
        },
        schema_elsewhere: tape.chance(40),
        project: &project,
    };
    project.note(case);
    case.note("config file", format!("{:?}", place.config_file));
    let reference = reference(case, &place)?;
    let ops = usable(&reference.log);
    if ops.is_empty() {
        return inconclusive("no operations seen");
    }
    let base = case.dir.join("f");
    place.write(&base)?;
    for name in reference.after.keys().filter(|n| !reference.before.contains_key(*n)) {
        if tape.chance(20) {
            let text = if tape.chance(50) {
                reference.after[name].clone()
            } else {
                junk(tape, Some(&reference.after[name]))
            };
            run::write_file(&base.join(name), text)?;
            case.label("stale outputs before");
        }
    }
    let mut plans = String::new();
    for round in 0..tape.range(1, 3) {
        let plan = choose_faults(tape, &ops);
        for f in &plan {
            plans.push_str(&format!("round {round}: {}\n", f.show()));
        }
        let mut notes = std::mem::take(&mut case.notes);
        notes.retain(|n| n.0 != "faults");
        notes.push(("faults".into(), plans.clone()));
        case.notes = notes;
        faulted(case, &place, &reference, &base, &plan)?;
        if tape.chance(30) {
            recover(case, &place, &reference, &base, &plans)?;
        }
    }
    recover(case, &place, &reference, &base, &plans)?;
    case.nontrivial();
    Ok(())
}

/// Every operation of a small run with every fault
fn every_operation(case: &mut Case<'_>) -> Outcome {
    let data: Vec<u32> = (0..1500u32).map(|i| i.wrapping_mul(2654435761) ^ 0x5bd1e995).collect();
    let mut tape = Tape::new(&data);
    let mut options = ProjectOptions::default();
    options.config = false;
    options.docs.operations = (2, 2);
    options.docs.fragments = (2, 2);
    options.docs.spreads = 40;
    let mut project = gen_project(&mut tape, &options);
    project.config.threads = Some(1);
    let place = Place {
        args: project.config.args(),
        config_file: Some("{}".into()),
        schema_elsewhere: false,
        project: &project,
    };
    project.note(case);
    let reference = reference(case, &place)?;
    let base = case.dir.join("f");
    for op in usable(&reference.log) {
        for action in shim::actions(&op.kind) {
            run::write_file(&base.join("x"), "")?;
            crate::engine::wipe(&base);
            place.write(&base)?;
            let fault = Fault {
                kind: op.kind.clone(),
                n: op.n,
                path: op.path.clone(),
                action,
            };
            let plan = [fault];
            faulted(case, &place, &reference, &base, &plan)?;
            recover(case, &place, &reference, &base, &plan[0].show())?;
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P12",
            rule: "random projects in a tree with look-alike files, edited, broken and repaired over up to four steps, with stale, truncated, foreign or missing outputs before each run; every run is compared, file by file, with a run in a clean tree, and repeated; other files that run writes for a while exist beforehand; non-trivial: all",
            quick_cases: 4000,
            thorough_cases: 40_000,
            tape: (100, 2000),
            prepare: Some(shim::prepare),
            run: p12,
            ..Check::base()
        },
        Check {
            id: "P18",
            rule: "random projects; one to four file operations of up to three runs fail, are cut short, interrupted, or the process is killed there; then an undisturbed run has to give the files of a clean one; and every operation of one small run with every fault; non-trivial: all",
            quick_cases: 6000,
            thorough_cases: 50_000,
            tape: (100, 2000),
            run: p18,
            fixed: &[("every operation of a small run", every_operation)],
            prepare: Some(shim::prepare),
            ..Check::base()
        },
    ]
}
