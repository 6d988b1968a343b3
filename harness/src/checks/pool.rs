//! P08: every document below the root directory is compiled exactly once, and the run ends.

use crate::common::mkdir;
use crate::diag::{self, Diag, Level};
use crate::engine::{inconclusive, violation, Case, Check, Outcome, Stop};
use crate::run::{self, expect_clean, Invocation, Ran};
use crate::shim::{self, Fault};
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CString, OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

/// What a run has to say about and make of a document
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Fate {
    /// Compiled, with a warning
    Compiled,
    /// One error about its contents
    Wrong,
    /// Cannot be read or written: one error naming it
    Denied,
    /// In a directory that can be listed only: reported somehow
    Listed,
    /// Not to be seen at all
    Unseen,
}

#[derive(Default)]
struct Tree {
    dirs: Vec<PathBuf>,
    docs: Vec<(PathBuf, usize, Fate)>,
    /// Directories that cannot be read
    closed: Vec<PathBuf>,
    used: BTreeSet<String>,
    modes: Vec<(PathBuf, u32)>,
    others: usize,
}

const DIR_NAMES: [&str; 14] = [
    "a", "b", "sub", "x.graphql", ".hidden", "with space", "ünï", "-dash", "node_modules", "[x]", "a.graphql.d.ts",
    "..dots", "Sub", "z",
];
const FILE_STEMS: [&str; 14] = [
    "a", "query", "q.list", ".hidden", "with space", "ünï☃", "-x", "Query", "a.graphql", "x.", " ", "schema", "#1", "a:1:2",
];

fn name(tape: &mut Tape<'_>, pool: &[&str]) -> OsString {
    if tape.chance(4) {
        // Not UTF-8
        let mut b = tape.pick(pool).as_bytes().to_vec();
        b.push(0xff);
        OsString::from_vec(b)
    } else {
        OsString::from(*tape.pick(pool))
    }
}

impl Tree {
    /// A path not used yet, also not in what is printed
    fn fresh(&mut self, dir: &Path, stem: &OsStr, end: &str) -> PathBuf {
        let mut n = 0;
        loop {
            let mut f = stem.to_os_string();
            if n > 0 {
                f.push(format!("{n}"));
            }
            f.push(end);
            let p = dir.join(&f);
            let shown = p.to_string_lossy().to_lowercase();
            let output = format!("{shown}.d.ts");
            if !self.used.contains(&shown) && !self.used.contains(&output) {
                self.used.insert(shown);
                self.used.insert(output);
                return p;
            }
            n += 1;
        }
    }

    fn doc(&mut self, tape: &mut Tape<'_>, dir: &Path, fate: Option<Fate>) -> Result<(), Stop> {
        let stem = name(tape, &FILE_STEMS);
        let p = self.fresh(dir, &stem, ".graphql");
        let n = self.docs.len();
        let mut own = fate.unwrap_or(Fate::Compiled);
        if own == Fate::Compiled && tape.chance(15) {
            own = Fate::Wrong;
        }
        let text = if own == Fate::Wrong {
            format!("query Q{n} {{ nope{n} }}")
        } else {
            format!("query Q{n} {{ a{n}: old }}\n")
        };
        run::write_file(&p, text)?;
        self.docs.push((p, n, own));
        Ok(())
    }

    fn dir(&mut self, tape: &mut Tape<'_>, parent: &Path) -> Result<PathBuf, Stop> {
        let n = name(tape, &DIR_NAMES);
        let p = self.fresh(parent, &n, "");
        mkdir(&p)?;
        self.dirs.push(p.clone());
        Ok(p)
    }

    /// Things that look like documents
    fn other(&mut self, tape: &mut Tape<'_>, dir: &Path, root: &Path) -> Result<(), Stop> {
        self.others += 1;
        let stem = name(tape, &FILE_STEMS);
        let text = "query Other { nope }";
        match tape.below(8) {
            0..=3 => {
                let end = *tape.pick(&[
                    ".gql", ".GRAPHQL", ".graphql.bak", ".graphqls", "-graphql", ".graphql~", ".txt", ".Graphql", ".graphql ",
                    ".graphq", ".graphql.d",
                ]);
                let p = self.fresh(dir, &stem, end);
                run::write_file(&p, text)
            }
            4 => {
                let p = self.fresh(dir, &stem, ".graphql");
                let c = CString::new(p.as_os_str().as_bytes()).unwrap();
                if unsafe { libc::mkfifo(c.as_ptr(), 0o666) } != 0 {
                    return inconclusive("mkfifo");
                }
                Ok(())
            }
            k => {
                let p = self.fresh(dir, &stem, if k == 7 { "" } else { ".graphql" });
                let target = match k {
                    5 => PathBuf::from(*tape.pick(&["nowhere", "/nonexistent/x.graphql", "."])),
                    6 => match self.docs.last() {
                        Some(d) => d.0.clone(),
                        None => root.join("../outside.graphql"),
                    },
                    _ => match tape.below(3) {
                        0 => root.to_path_buf(),
                        1 => PathBuf::from(".."),
                        _ => root.join("../outside"),
                    },
                };
                std::os::unix::fs::symlink(target, p).map_err(|e| Stop::Inconclusive(e.to_string()))
            }
        }
    }

    fn fill(&mut self, tape: &mut Tape<'_>, root: &Path, style: usize) -> Result<(), Stop> {
        match style {
            // A chain
            0 => {
                let mut at = root.to_path_buf();
                for _ in 0..tape.range(1, 60) {
                    at = self.dir(tape, &at)?;
                    if tape.chance(15) {
                        self.doc(tape, &at, None)?;
                    }
                }
                self.doc(tape, &at, None)
            }
            // One wide directory
            1 => {
                let at = if tape.chance(50) { self.dir(tape, root)? } else { root.to_path_buf() };
                for _ in 0..tape.range(20, 250) {
                    self.doc(tape, &at, None)?;
                }
                Ok(())
            }
            // Many directories with a document each
            2 => {
                for _ in 0..tape.range(5, 40) {
                    let at = self.dir(tape, root)?;
                    for _ in 0..tape.below(3) {
                        self.doc(tape, &at, None)?;
                    }
                }
                Ok(())
            }
            _ => {
                let mut dirs = vec![root.to_path_buf()];
                for _ in 0..tape.range(1, 40) {
                    let at = tape.pick(&dirs).clone();
                    match tape.below(6) {
                        0 | 1 => {
                            let d = self.dir(tape, &at)?;
                            dirs.push(d);
                        }
                        2 => self.other(tape, &at, root)?,
                        _ => self.doc(tape, &at, None)?,
                    }
                }
                Ok(())
            }
        }
    }

    /// Directories and files that cannot be used in full
    fn deny(&mut self, tape: &mut Tape<'_>, root: &Path) -> Result<(), Stop> {
        for _ in 0..tape.range(1, 4) {
            let mut parents = vec![root.to_path_buf()];
            parents.extend(self.dirs.iter().filter(|d| !self.modes.iter().any(|m| d.starts_with(&m.0))).cloned());
            let parent = tape.pick(&parents).clone();
            match tape.below(4) {
                0 => {
                    let d = self.dir(tape, &parent)?;
                    for _ in 0..tape.below(4) {
                        self.doc(tape, &d, Some(Fate::Unseen))?;
                    }
                    self.modes.push((d.clone(), *tape.pick(&[0o000, 0o311, 0o111, 0o333])));
                    self.closed.push(d);
                }
                1 => {
                    let d = self.dir(tape, &parent)?;
                    for _ in 0..tape.range(1, 3) {
                        self.doc(tape, &d, Some(Fate::Listed))?;
                    }
                    self.modes.push((d, 0o444));
                }
                2 => {
                    let d = self.dir(tape, &parent)?;
                    for _ in 0..tape.range(1, 3) {
                        self.doc(tape, &d, Some(Fate::Denied))?;
                    }
                    self.modes.push((d, 0o555));
                }
                _ => {
                    self.doc(tape, &parent, Some(Fate::Denied))?;
                    let p = self.docs.last().unwrap().0.clone();
                    self.modes.push((p, 0o222));
                }
            }
        }
        Ok(())
    }
}

fn set_mode(p: &Path, mode: u32) -> Result<(), Stop> {
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).map_err(|e| Stop::Inconclusive(e.to_string()))
}

const SCHEMA: &str = r#"{"data":{"__schema":{"types":[
{"kind":"OBJECT","name":"Query","fields":[{"name":"old","type":{"kind":"SCALAR","name":"String"},"isDeprecated":true}],"interfaces":[]},
{"kind":"SCALAR","name":"String"}]}}}"#;

/// Runs that do not end are tried again with more time before they count
fn run_to_the_end(case: &mut Case<'_>, invocation: &Invocation) -> Result<Ran, Stop> {
    let hooked = invocation.env.contains_key("QLC_SCHED_SEED");
    let mut seen = Vec::new();
    for (cpu, wall, steps) in [(15, 25, 400_000u64), (60, 60, 4_000_000), (60, 120, 8_000_000)] {
        let mut i = invocation.clone();
        i.limits = Some((cpu, wall));
        if hooked {
            i.env.insert("QLC_SCHED_STEPS".into(), steps.to_string());
        }
        case.stats.runs += 1;
        let ran = run::run(&i)?;
        if hooked && ran.code == Some(97) {
            seen.push(format!("no end within {steps} schedule points"));
            continue;
        }
        if ran.timed_out() {
            seen.push(format!("no end within {cpu} s of CPU time and {wall} s"));
            continue;
        }
        return Ok(ran);
    }
    violation(format!("the run does not end: {}", seen.join(", ")))
}

fn p08(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let top = case.dir.clone();
    let root = top.join("root");
    mkdir(&root)?;
    run::write_file(&top.join("schema.json"), SCHEMA)?;
    run::write_file(&top.join("outside.graphql"), "query Outside { nope }")?;
    run::write_file(&top.join("outside/in.graphql"), "query Outside { nope }")?;
    let threads = match tape.below(6) {
        0 => tape.below(2),
        1 => 2,
        2 | 3 => tape.range(3, 8),
        4 => tape.range(9, 32),
        _ => tape.range(33, 64),
    };
    let style = tape.below(6);
    let spelling = tape.below(5);
    let chosen = tape.chance(50);
    let hooked = run::hooked_binary().filter(|_| chosen);
    let sched = tape.raw();
    let delayed = tape.chance(35);
    let delay = Some(tape.raw()).filter(|_| hooked.is_none() && delayed);
    // Choosing among many is slow
    let threads = if hooked.is_some() && threads > 8 && !tape.chance(10) { threads / 5 } else { threads };
    let denied = tape.chance(25);
    let mut tree = Tree::default();
    tree.fill(tape, &root, style)?;
    if denied {
        tree.deny(tape, &root)?;
    }
    if tape.chance(10) {
        for _ in 0..tape.range(1, 4) {
            tree.dir(tape, &root)?;
        }
    }
    let before = run::snapshot(&top);

    let mut invocation = Invocation::default();
    invocation.cwd = Some(top.clone());
    invocation.args = ["--show-deprecation-warnings", "--no-color", "-s"].iter().map(OsString::from).collect();
    invocation.args.push(top.join("schema.json").into());
    invocation.args.push("--num-threads".into());
    invocation.args.push(threads.to_string().into());
    match spelling {
        0 => invocation.args.push("root".into()),
        1 => {
            invocation.args.push("./root/".into());
        }
        2 => {
            invocation.cwd = Some(root.clone());
        }
        3 => {
            std::os::unix::fs::symlink("root", top.join("link")).map_err(|e| Stop::Inconclusive(e.to_string()))?;
            invocation.args.push("link".into());
        }
        _ => invocation.args.push(root.clone().into()),
    }
    invocation.unprivileged = denied;
    if let Some(hooked) = hooked {
        invocation.binary = Some(hooked.to_path_buf());
        invocation = invocation.env("QLC_SCHED_SEED", sched.to_string());
        case.label("chosen schedule");
    }
    if let Some(seed) = delay {
        shim::instrument(&mut invocation, &top, None, &[], Some(seed));
        case.label("delayed operations");
    }
    if hooked.is_none() && delay.is_none() && threads > 1 && tape.chance(25) {
        // One of the threads cannot be started
        let fault = Fault {
            kind: "thread".into(),
            n: tape.range(2, threads),
            path: String::new(),
            action: "eio",
        };
        case.note("fault", fault.show());
        shim::instrument(&mut invocation, &top, None, &[fault], None);
        case.label("a thread fails to start");
    }
    case.note(
        "run",
        format!(
            "threads {threads} {}{}{}",
            delay.map_or(String::new(), |d| format!("delays {d} ")),
            hooked.map_or(String::new(), |_| format!("schedule {sched} ")),
            invocation.args.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>().join(" ")
        ),
    );
    let mut listing = String::new();
    for (k, v) in &before {
        let text = String::from_utf8_lossy(v);
        listing.push_str(&format!("{k} {}\n", if k.ends_with(".json") { "" } else { text.trim() }));
    }
    for (p, m) in &tree.modes {
        listing.push_str(&format!("mode {m:o} {}\n", p.strip_prefix(&top).unwrap().display()));
    }
    case.note("tree", listing);

    set_mode(&root, 0o777)?;
    for d in &tree.dirs {
        set_mode(d, 0o777)?;
    }
    for (p, m) in &tree.modes {
        set_mode(p, *m)?;
    }
    let ran = run_to_the_end(case, &invocation);
    for (p, _) in &tree.modes {
        set_mode(p, 0o777)?;
    }
    let ran = ran?;
    expect_clean(&ran)?;
    let report = match diag::parse(&ran.out()) {
        Ok(r) => r,
        Err(e) => return violation(format!("{e}; {}", ran.describe())),
    };
    let how = ran.describe();
    if let Err(e) = diag::consistent(&report, ran.code) {
        return violation(format!("{e}\n{how}"));
    }

    // Which document or directory a message is about, as a path relative to the root
    let prefixes: Vec<String> = match spelling {
        0 => vec!["root/".into()],
        1 => vec!["./root/".into(), "root/".into()],
        2 => vec!["./".into(), format!("{}/", root.display())],
        3 => vec!["link/".into()],
        _ => vec![format!("{}/", root.display())],
    };
    let mentions = |d: &Diag, p: &Path| -> bool {
        let rel = p.strip_prefix(&root).unwrap().to_string_lossy().into_owned();
        let mut spellings: Vec<String> = prefixes.iter().map(|x| format!("{x}{rel}")).collect();
        if spelling == 2 {
            spellings.push(rel);
        }
        spellings.iter().any(|s| match &d.path {
            Some(path) => path == s,
            None => d.text.contains(&format!("`{s}`")) || d.text.contains(&format!("`{s}.d.ts`")),
        })
    };
    let mut unexplained: Vec<&Diag> = report.diags.iter().collect();
    let mut take = |p: &Path, level: fn(&Diag) -> bool| -> usize {
        let before = unexplained.len();
        unexplained.retain(|d| !(level(d) && mentions(d, p)));
        before - unexplained.len()
    };
    let mut outputs = BTreeMap::new();
    for (p, n, fate) in &tree.docs {
        let rel = p.strip_prefix(&top).unwrap().to_string_lossy().into_owned();
        let errors = take(p, |d| d.level != Level::Warning);
        let warnings = take(p, |d| d.level == Level::Warning);
        let want: (usize, usize) = match fate {
            Fate::Compiled => (0, 1),
            Fate::Wrong | Fate::Denied => (1, 0),
            Fate::Listed => (errors, 0),
            Fate::Unseen => (0, 0),
        };
        // Warnings about a document that could not be written may be shown or not
        if errors != want.0 || (warnings != want.1 && *fate != Fate::Denied) || warnings > 1 {
            return violation(format!(
                "{rel} ({fate:?}) has {errors} errors and {warnings} warnings, expected {} and {}\n{how}",
                want.0, want.1
            ));
        }
        if *fate == Fate::Compiled {
            outputs.insert(format!("{rel}.d.ts"), *n);
        }
    }
    for d in &tree.closed {
        if take(d, |d| d.level != Level::Warning) != 1 {
            return violation(format!("no error (or several) about unreadable {}\n{how}", d.display()));
        }
    }
    for (d, mode) in &tree.modes {
        if *mode == 0o444 {
            let rel = d.strip_prefix(&root).unwrap().to_string_lossy().into_owned();
            let some = report.error_list().iter().any(|e| {
                e.text.contains(&rel) || e.path.as_ref().map_or(false, |p| p.contains(&rel))
            });
            if !some {
                return violation(format!("nothing is reported about {rel}\n{how}"));
            }
            unexplained.retain(|e| !(e.text.contains(&rel) || e.path.as_ref().map_or(false, |p| p.contains(&rel))));
        }
    }
    if let Some(d) = unexplained.first() {
        return violation(format!("unexpected message: {d:?}\n{how}"));
    }
    let after = run::snapshot(&top);
    for (k, v) in &after {
        if k == "link@" {
            continue;
        }
        match (before.get(k), outputs.remove(k)) {
            (Some(old), None) if old == v => {}
            (None, Some(n)) => {
                let text = String::from_utf8_lossy(v);
                if !text.contains(&format!("a{n}:")) || !text.contains(&format!("Q{n}")) {
                    return violation(format!("{k} is not the output of its document:\n{text}\n{how}"));
                }
            }
            _ => return violation(format!("{k} was not to be written\n{how}")),
        }
    }
    if let Some((k, _)) = outputs.iter().next() {
        return violation(format!("{k} is missing\n{how}"));
    }
    if before.keys().any(|k| !after.contains_key(k)) {
        return violation(format!("files are gone\n{how}"));
    }
    case.label(["chain", "wide", "many directories", "bushy", "bushy", "bushy"][style]);
    case.label_if(denied, "denied access");
    case.label_if(threads > 8, "more than 8 threads");
    case.label_if(threads < 2, "0 or 1 threads");
    case.label_if(tree.others > 0, "look-alikes");
    case.label_if(tree.docs.iter().any(|d| d.2 == Fate::Wrong), "documents with errors");
    if tree.docs.len() > 2 {
        case.nontrivial();
    }
    Ok(())
}

/// Sizes random trees do not reach
fn large(case: &mut Case<'_>, docs: usize, threads: usize, depth: usize, dirs: usize) -> Outcome {
    let root = case.dir.join("root");
    let mut paths = Vec::new();
    let mut at = root.clone();
    for _ in 0..depth {
        at.push("d");
    }
    for n in 0..docs {
        if dirs > 0 {
            paths.push(at.join(format!("{}/q{n}.graphql", n % dirs)));
        } else {
            paths.push(at.join(format!("q{n}.graphql")));
        }
    }
    for (n, p) in paths.iter().enumerate() {
        run::write_file(p, format!("query Q{n} {{ a{n}: old }}"))?;
    }
    let schema = case.dir.join("schema.json");
    run::write_file(&schema, SCHEMA)?;
    let invocation = Invocation::default()
        .arg("--show-deprecation-warnings")
        .arg("-s")
        .arg(&schema)
        .arg("--num-threads")
        .arg(threads.to_string())
        .arg(&root);
    let ran = run_to_the_end(case, &invocation)?;
    expect_clean(&ran)?;
    let report = match diag::parse(&ran.out()) {
        Ok(r) => r,
        Err(e) => return violation(e),
    };
    let how = format!("exit {:?}, {:?} errors, {:?} warnings", ran.code, report.errors, report.warnings);
    if ran.code != Some(0) || diag::consistent(&report, ran.code).is_err() {
        return violation(how);
    }
    let warned: BTreeSet<String> = report.diags.iter().filter_map(|d| d.path.clone()).collect();
    if report.diags.len() != docs || warned.len() != docs {
        return violation(format!("{docs} documents, {} messages about {}; {how}", report.diags.len(), warned.len()));
    }
    for (n, p) in paths.iter().enumerate() {
        let output = PathBuf::from(format!("{}.d.ts", p.display()));
        match std::fs::read_to_string(&output) {
            Ok(t) if t.contains(&format!("a{n}:")) => {}
            _ => return violation(format!("{} is missing or wrong; {how}", output.display())),
        }
    }
    case.label("large trees");
    Ok(())
}

/// Root directories that cannot be listed: the run ends and says so
fn no_root(case: &mut Case<'_>) -> Outcome {
    let schema = case.dir.join("schema.json");
    run::write_file(&schema, SCHEMA)?;
    run::write_file(&case.dir.join("file.graphql"), "query Q { a0: old }")?;
    let dangling = case.dir.join("dangling");
    std::os::unix::fs::symlink("nowhere", &dangling).map_err(|e| Stop::Inconclusive(e.to_string()))?;
    for root in ["missing", "missing/er", "file.graphql", "dangling"] {
        for threads in ["1", "2", "16"] {
            let invocation = Invocation::default()
                .arg("--no-color")
                .arg("-s")
                .arg(&schema)
                .arg("--num-threads")
                .arg(threads)
                .arg(case.dir.join(root));
            let ran = run_to_the_end(case, &invocation)?;
            expect_clean(&ran)?;
            let ok = diag::parse(&ran.out()).map_or(false, |r| diag::consistent(&r, ran.code).is_ok() && r.error_list().len() == 1);
            if ran.code != Some(1) || !ok {
                return violation(format!("root {root}: expected one error; {}", ran.describe()));
            }
        }
    }
    case.label("no root directory");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P08",
        rule: "directory trees (chains up to 60 deep, directories with up to 250 documents, bushy trees with look-alikes, symbolic links, FIFOs and odd names, parts without read, search or write permission), 0 to 64 threads, half of the runs under a chosen schedule, a sixth with delayed file operations and thread starts; non-trivial: at least three documents",
        quick_cases: 5000,
        thorough_cases: 60_000,
        hooked: true,
        prepare: Some(shim::prepare),
        fixed: &[
            ("20000 documents in a directory, one thread", |c| large(c, 20_000, 1, 0, 0)),
            ("5000 documents in a directory, eight threads", |c| large(c, 5000, 8, 1, 0)),
            ("a directory 700 deep", |c| large(c, 3, 4, 700, 0)),
            ("3000 directories", |c| large(c, 3000, 3, 0, 3000)),
            ("root directories that cannot be listed", no_root),
            ("more threads than documents", |c| large(c, 5, 200, 0, 5)),
        ],
        tape: (100, 1500),
        shrink_iters: 250,
        assumptions: &["schedules are chosen at the schedule points of the hook; the operating system schedules the other half"],
        run: p08,
        ..Check::base()
    }]
}
