//! P05: import resolution over generated file trees and import graphs.

use crate::common::*;
use crate::doc::{relative, Doc, DocKind, Field, Sel};
use crate::engine::{violation, Case, Check, Outcome};
use crate::model::{self, Config};
use crate::run::{self, Invocation};
use crate::schema::{FieldDef, Kind, Schema, TypeDef, TypeRef};
use crate::tape::Tape;
use crate::ts::{self, Comparer};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Flavour {
    Fragment,
    Operation,
    /// Does not parse
    Broken,
    /// Two definitions
    Several,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Target {
    Doc(usize),
    /// Cannot be read
    Missing,
}

struct ImportLine {
    line: usize,
    target: Target,
    text: String,
}

struct Node {
    path: String,
    flavour: Flavour,
    spreads: Vec<usize>,
    head: Vec<ImportLine>,
    text: String,
    bom: bool,
    /// Below the root, with the extension of documents
    compiled: bool,
}

fn field_name(i: usize) -> String {
    format!("f{i}")
}

fn fragment_name(i: usize) -> String {
    format!("Frag{i}")
}

fn tree_schema(n: usize) -> Schema {
    let mut query = TypeDef::new("Query", Kind::Object);
    for i in 0..n {
        query.fields.push(FieldDef {
            name: field_name(i),
            ty: TypeRef::named("Int"),
            desc: None,
            deprecated: false,
        });
    }
    Schema {
        types: vec![TypeDef::new("Int", Kind::Scalar), query],
        ..Schema::default()
    }
}

const DIRS: [&str; 11] = [
    "", "a/", "b/", "a/b/", "a/b/c/", "with space/", "~/", "b/a.graphql.d/", ".d/", "a/.d/", "a/..b/",
];
const NAMES: [&str; 9] = ["f", "fragment", "query", "x.y", "ünï", "index", "a#b", "50%20", "c\\d"];
/// Files that are no documents, but can be imported
const OTHER_EXTENSIONS: [&str; 6] = [".gql", "", ".graphql ", ".graphqls", ".GRAPHQL", ".graphql.txt"];
const OUTSIDE: [&str; 3] = ["../", "../shared/", "../rooted/a/"];

/// A path relative to the root as one relative to the directory around it
fn from_above(path: &str) -> String {
    match path.strip_prefix("../") {
        Some(outside) => outside.to_string(),
        None => format!("root/{path}"),
    }
}

fn spell(tape: &mut Tape<'_>, from: &str, to: &str, prefix: Option<&str>, dirs: &BTreeSet<String>) -> String {
    let rel = relative(&from_above(from), &from_above(to));
    match tape.below(8) {
        0 | 1 => to.to_string(),
        2 | 3 if prefix.is_some() => format!("{}{to}", prefix.unwrap()),
        4 => format!("./{rel}"),
        5 => {
            // Into some directory and back out of it
            let dir = dirs.iter().nth(tape.below(dirs.len())).unwrap();
            if dir.is_empty() {
                return rel;
            }
            let back = "../".repeat(dir.matches('/').count());
            match (tape.below(2), prefix) {
                (1, Some(prefix)) if !prefix.is_empty() || !dir.starts_with('.') => format!("{prefix}{dir}{back}{to}"),
                _ if dir.starts_with('.') => {
                    let ups = from.matches('/').count();
                    format!("{}{dir}{back}{to}", "../".repeat(ups))
                }
                _ => format!("{dir}{back}{to}"),
            }
        }
        6 => {
            // Up to the root directory in any case
            let ups = from.matches('/').count();
            format!("./{}{to}", "../".repeat(ups))
        }
        _ => rel,
    }
}

/// The path from the root that an import in the document at `from` means
fn resolve(from: &str, path: &str, prefix: Option<&str>) -> String {
    let joined = if let Some(rest) = prefix.filter(|p| !p.is_empty()).and_then(|p| path.strip_prefix(p)) {
        rest.to_string()
    } else if path.starts_with('.') {
        let dir = from.rfind('/').map_or("", |i| &from[..=i]);
        format!("{dir}{path}")
    } else {
        path.to_string()
    };
    let mut parts = vec!["root".to_string()];
    for c in Path::new(&joined).components() {
        match c {
            std::path::Component::ParentDir => {
                if parts.pop().is_none() {
                    // Too far up, where there is nothing
                    return String::new();
                }
            }
            std::path::Component::Normal(part) => parts.push(part.to_string_lossy().into_owned()),
            _ => {}
        }
    }
    if parts.first().map(String::as_str) == Some("root") {
        parts[1..].join("/")
    } else {
        format!("../{}", parts.join("/"))
    }
}

fn close(nodes: &[Node], from: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(i) = todo.pop() {
        for l in &nodes[i].head {
            if let Target::Doc(t) = l.target {
                if out.insert(t) {
                    todo.push(t);
                }
            }
        }
    }
    out
}

fn normalize(path: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in path.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            other => out.push(other),
        }
    }
    out
}

fn p05(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    // Rarely much larger, to find limits
    if tape.chance(4) {
        case.label("large");
        let decisions = Tape::derived(tape.raw(), 6000);
        trees(&mut Tape::new(&decisions), case, true)
    } else {
        trees(tape, case, false)
    }
}

fn trees(tape: &mut Tape<'_>, case: &mut Case<'_>, large: bool) -> Outcome {
    let count = if large { tape.range(9, 40) } else { tape.range(2, 8) };
    let chain = tape.chance(if large { 50 } else { 10 });
    let prefix: Option<&str> = if tape.chance(50) {
        Some(*tape.pick(&["@/", "~/", "root:", "@", "src/", ""]))
    } else {
        None
    };
    let schema = tree_schema(count);
    // Files
    let mut nodes: Vec<Node> = Vec::new();
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut dirs: BTreeSet<String> = BTreeSet::from([String::new()]);
    let style = tape.below(3);
    for i in 0..count {
        let dir = if style == 0 { DIRS[tape.below(4)] } else { *tape.pick(&DIRS) };
        let name = if style == 1 { "f" } else { *tape.pick(&NAMES) };
        // Some are none of the documents of this run
        let (dir, extension) = match tape.below(16) {
            14 => (*tape.pick(&OUTSIDE), ".graphql"),
            15 => (dir, *tape.pick(&OTHER_EXTENSIONS)),
            _ => (dir, ".graphql"),
        };
        let compiled = !dir.starts_with("../") && extension == ".graphql";
        let mut path = format!("{dir}{name}{extension}");
        let mut n = 2;
        while !used.insert(path.clone()) {
            path = format!("{dir}{name}{n}{extension}");
            n += 1;
        }
        case.label_if(!compiled, "file that is no document of the run");
        if !dir.starts_with("../") {
            dirs.insert(dir.to_string());
        }
        let flavour = match tape.below(100) {
            _ if i == 0 => Flavour::Fragment,
            0..=54 => Flavour::Fragment,
            55..=88 => Flavour::Operation,
            89..=94 => Flavour::Broken,
            _ => Flavour::Several,
        };
        nodes.push(Node {
            path,
            flavour,
            spreads: Vec::new(),
            head: Vec::new(),
            text: String::new(),
            bom: false,
            compiled,
        });
    }
    if prefix == Some("src/") && dirs.len() > 1 && tape.chance(50) {
        // nothing special: `src/` does not exist below the root, so the prefix must be removed
        case.label("prefix looks like a directory");
    }
    let cyclic = tape.chance(50);
    let faults = tape.chance(40);
    for i in 0..count {
        let mut lines: Vec<(String, Option<Target>)> = Vec::new();
        let wanted = if large && tape.chance(15) { tape.range(8, 20) } else { tape.range(0, 3) };
        for n in 0..wanted {
            let j = match (chain && n == 0 && i > 0, cyclic) {
                (true, _) => i - 1,
                (false, true) => tape.below(count),
                (false, false) => tape.below(i.max(1)),
            };
            if !cyclic && j >= i {
                continue;
            }
            if !faults && nodes[j].flavour != Flavour::Fragment {
                continue;
            }
            let path = spell(tape, &nodes[i].path.clone(), &nodes[j].path.clone(), prefix, &dirs);
            let tail = *tape.pick(&["\"", "\"", "\"", "\";", "\" ", "\" # \"x\"", "\"\t", ""]);
            let target = resolve(&nodes[i].path.clone(), &path, prefix);
            let target = match nodes.iter().position(|n| n.path == target) {
                Some(t) => Target::Doc(t),
                None => Target::Missing,
            };
            if target != Target::Doc(j) {
                // The prefix happens to start a path from the root
                let allowed = match target {
                    Target::Doc(t) if nodes[t].flavour == Flavour::Fragment => cyclic || t < i,
                    Target::Doc(_) | Target::Missing => faults,
                };
                if !allowed {
                    continue;
                }
                case.label("prefix removed from what looks like a path from the root");
            }
            lines.push((format!("#import \"{path}{tail}"), Some(target)));
        }
        if faults && tape.chance(25) {
            let path = match tape.below(5) {
                0 => "./nothing.graphql".to_string(),
                1 => "nothing/at/all.graphql".to_string(),
                2 => format!("{}x/nothing.graphql", prefix.unwrap_or("")),
                3 => format!("{}/x.graphql", nodes[0].path),
                _ => "../".repeat(nodes[i].path.matches('/').count()) + "./nothing",
            };
            lines.push((format!("#import \"{path}\""), Some(Target::Missing)));
        }
        let noises = if large && tape.chance(20) { tape.range(10, 60) } else { tape.below(3) };
        for _ in 0..noises {
            let noise = *tape.pick(&[
                "",
                "# a comment",
                "#",
                "   ",
                "\t",
                "# import \"nothing.graphql\"",
                "#import 'nothing.graphql'",
                "#import  \"nothing.graphql\"",
                "#Import \"nothing.graphql\"",
                "## #import \"nothing.graphql\"",
                "# long",
            ]);
            let noise = match noise {
                "# long" => format!("#{}", "long ".repeat(if large { 3000 } else { 60 })),
                noise => noise.to_string(),
            };
            lines.push((noise, None));
        }
        tape.shuffle(&mut lines);
        let bom = tape.chance(8);
        let newline = if tape.chance(8) { "\r\n" } else { "\n" };
        let mut text = String::new();
        for (n, (line, target)) in lines.iter().enumerate() {
            if let Some(target) = target {
                nodes[i].head.push(ImportLine {
                    line: n + 1,
                    target: *target,
                    text: line.clone(),
                });
            }
            text.push_str(line);
            text.push_str(newline);
        }
        nodes[i].text = text;
        nodes[i].bom = bom;
        // Spreads only go to earlier fragments, so they are never cyclic
        let fragments: Vec<usize> = (0..i).filter(|j| nodes[*j].flavour == Flavour::Fragment).collect();
        let mut spreads: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..tape.range(0, 3) {
            if !fragments.is_empty() {
                spreads.insert(fragments[tape.below(fragments.len())]);
            }
        }
        nodes[i].spreads = spreads.into_iter().collect();
    }
    // Mostly only spread what is in scope
    let strict = !tape.chance(30);
    for i in 0..count {
        if strict {
            let scope = close(&nodes, i);
            nodes[i].spreads.retain(|s| scope.contains(s));
        }
    }
    for i in 0..count {
        let mut body = String::new();
        for s in &nodes[i].spreads {
            body.push_str(&format!("  ...{}\n", fragment_name(*s)));
        }
        let late = match tape.below(8) {
            0 => "\n#import \"./nothing-late.graphql\"\n".to_string(),
            1 => format!("\n#import \"{}\"\n", nodes[tape.below(count)].path),
            _ => String::new(),
        };
        let head = match nodes[i].flavour {
            Flavour::Fragment => format!("fragment {} on Query ", fragment_name(i)),
            Flavour::Operation => format!("query Op{i} "),
            Flavour::Broken => format!("query Op{i} {{ ) "),
            Flavour::Several => format!("query Other{i} {{ f0 }}\nquery Op{i} "),
        };
        let inner_late = if tape.chance(10) { "#import \"./nothing-inside.graphql\"\n" } else { "" };
        let first_other = if tape.chance(10) { " # indented\n#import \"./nothing.graphql\"\n" } else { "" };
        let text = format!("{first_other}{head}{{\n{inner_late}  {}\n{body}}}\n{late}", field_name(i));
        case.label_if(!late.is_empty() || !inner_late.is_empty() || !first_other.is_empty(), "late import");
        let node = &mut nodes[i];
        node.text.push_str(&text);
        if node.bom {
            node.text.insert(0, '\u{feff}');
        }
    }

    // On disk
    let root = case.dir.join("root");
    let schema_text = schema.json().to_string();
    run::write_file(&root.join("schema.json"), &schema_text)?;
    for dir in &dirs {
        mkdir(&root.join(dir))?;
    }
    for dir in OUTSIDE {
        mkdir(&normalize(&root.join(dir)))?;
    }
    for n in &nodes {
        run::write_file(&normalize(&root.join(&n.path)), &n.text)?;
    }
    let mut invocation = Invocation::default();
    let (cwd, arg) = match tape.below(5) {
        0 => (root.clone(), None),
        1 => (root.clone(), Some(".".to_string())),
        2 => (case.dir.clone(), Some("root/".to_string())),
        3 => (case.dir.clone(), Some("./root".to_string())),
        _ => (case.dir.clone(), Some(root.display().to_string())),
    };
    invocation.cwd = Some(cwd.clone());
    if let Some(prefix) = prefix {
        invocation.args.push("--root-dir-import-prefix".into());
        invocation.args.push(prefix.into());
    }
    if let Some(arg) = &arg {
        invocation.args.push(arg.into());
    }
    case.note("prefix", prefix.unwrap_or("none"));
    case.note("root", arg.clone().unwrap_or_else(|| "working directory".into()));
    for n in &nodes {
        case.note(n.path.clone(), n.text.clone());
    }
    let compiled = compile_with(case, &invocation, &root, "graphql-globals.ts")?;
    let explain = || compiled.ran.describe();

    // What has to be reported
    let absolute = |p: &str| normalize(&cwd.join(p));
    let place_of = |n: &Node| normalize(&root.join(&n.path));
    let mut missing_wanted: BTreeSet<(PathBuf, usize)> = BTreeSet::new();
    let mut wrong_wanted: BTreeMap<usize, BTreeSet<(PathBuf, usize)>> = BTreeMap::new();
    let mut unknown_wanted: BTreeSet<(PathBuf, String)> = BTreeSet::new();
    let mut broken_wanted: BTreeSet<PathBuf> = BTreeSet::new();
    let parses = |i: usize| matches!(nodes[i].flavour, Flavour::Fragment | Flavour::Operation);
    for i in 0..count {
        if !nodes[i].compiled {
            continue;
        }
        let here = place_of(&nodes[i]);
        if !parses(i) {
            broken_wanted.insert(here.clone());
            continue;
        }
        let scope = close(&nodes, i);
        for s in &nodes[i].spreads {
            if !scope.contains(s) {
                unknown_wanted.insert((here.clone(), fragment_name(*s)));
            }
        }
        for k in scope.iter().copied().chain(std::iter::once(i)) {
            for l in &nodes[k].head {
                match l.target {
                    Target::Missing => {
                        missing_wanted.insert((place_of(&nodes[k]), l.line));
                    }
                    Target::Doc(t) if nodes[t].flavour == Flavour::Operation => {
                        wrong_wanted
                            .entry(t)
                            .or_default()
                            .insert((place_of(&nodes[k]), l.line));
                    }
                    _ => {}
                }
            }
        }
    }
    let mut missing_found = BTreeMap::new();
    let mut wrong_found: BTreeSet<usize> = BTreeSet::new();
    let mut unknown_found = BTreeSet::new();
    let mut broken_found = BTreeSet::new();
    for d in compiled.report.diags.iter() {
        let path = d.path.as_deref().map(absolute);
        let quoted_ok = |lines: &[ImportLine], bom: bool| {
            bom || lines
                .iter()
                .any(|l| Some(l.line) == d.line && d.quoted.as_ref().map(|q| q.1.trim_end_matches('\r')) == Some(l.text.as_str()))
        };
        if d.text.starts_with("could not read `") && d.line.is_some() {
            let path = path.unwrap_or_default();
            if let Some(n) = nodes.iter().find(|n| place_of(n) == path) {
                if !quoted_ok(&n.head, n.bom) {
                    return violation(format!("{d:?} does not quote the import line; {}", explain()));
                }
            }
            *missing_found.entry((path, d.line.unwrap())).or_insert(0) += 1;
        } else if let Some(rest) = d.text.strip_prefix("cannot import non-fragment GraphQL document `") {
            let target = absolute(rest.trim_end_matches('`'));
            let Some(t) = (0..count).find(|t| place_of(&nodes[*t]) == target) else {
                return violation(format!("{d:?} names no document; {}", explain()));
            };
            let place = (path.unwrap_or_default(), d.line.unwrap_or(0));
            if !wrong_wanted.get(&t).map_or(false, |w| w.contains(&place)) {
                return violation(format!("{d:?} is not at an import of that document; {}", explain()));
            }
            if let Some(n) = nodes.iter().find(|n| place_of(n) == place.0) {
                if !quoted_ok(&n.head, n.bom) {
                    return violation(format!("{d:?} does not quote the import line; {}", explain()));
                }
            }
            wrong_found.insert(t);
        } else if let Some(name) = d.text.strip_prefix("unknown spread fragment name `") {
            unknown_found.insert((path.unwrap_or_default(), name.trim_end_matches('`').to_string()));
        } else {
            broken_found.insert(path.unwrap_or_default());
        }
    }
    let missing_places: BTreeSet<(PathBuf, usize)> = missing_found.keys().cloned().collect();
    if missing_places != missing_wanted {
        return violation(format!(
            "unreadable imports are reported at {missing_places:?} instead of {missing_wanted:?}; {}",
            explain()
        ));
    }
    if let Some((place, n)) = missing_found.iter().find(|(_, n)| **n > 2 * count) {
        return violation(format!("{place:?} is reported {n} times; {}", explain()));
    }
    let wrong_targets: BTreeSet<usize> = wrong_wanted.keys().copied().collect();
    if wrong_found != wrong_targets {
        return violation(format!(
            "imports of operations {wrong_found:?} are reported instead of {wrong_targets:?}; {}",
            explain()
        ));
    }
    if unknown_found != unknown_wanted {
        return violation(format!(
            "unknown fragments {unknown_found:?} are reported instead of {unknown_wanted:?}; {}",
            explain()
        ));
    }
    if broken_found != broken_wanted {
        return violation(format!(
            "unparseable documents {broken_found:?} are reported instead of {broken_wanted:?}; {}",
            explain()
        ));
    }

    // What has to be generated
    let docs: Vec<Doc> = (0..count)
        .map(|i| {
            let mut sels = vec![Sel::Field(Field {
                id: 0,
                alias: None,
                name: field_name(i),
                sels: Vec::new(),
            })];
            sels.extend(nodes[i].spreads.iter().map(|s| Sel::Spread {
                id: 0,
                name: fragment_name(*s),
            }));
            let fragment = nodes[i].flavour == Flavour::Fragment;
            Doc {
                kind: if fragment { DocKind::Fragment("Query".into()) } else { DocKind::Query },
                root: "Query".into(),
                name: Some(if fragment { fragment_name(i) } else { format!("Op{i}") }),
                vars: Vec::new(),
                sels,
                path: nodes[i].path.clone(),
                imports: Vec::new(),
            }
        })
        .collect();
    let map = fragments(&docs);
    let config = Config::default();
    let mut checked = 0;
    let expected: BTreeSet<String> = docs.iter().zip(&nodes).filter(|(_, n)| n.compiled).map(|(d, _)| d.output()).collect();
    if let Some(other) = compiled.files.keys().find(|f| !expected.contains(*f)) {
        return violation(format!("{other} belongs to no document; {}", explain()));
    }
    for i in 0..count {
        let output = docs[i].output();
        let here = place_of(&nodes[i]);
        if !nodes[i].compiled {
            if nodes[i].path.starts_with("../") && here.with_extension("graphql.d.ts").exists() {
                return violation(format!("{here:?} is compiled; {}", explain()));
            }
            continue;
        }
        let scope = close(&nodes, i);
        let own_unknown = unknown_wanted.iter().any(|u| u.0 == here);
        if !parses(i) || own_unknown {
            if compiled.files.contains_key(&output) {
                return violation(format!("{output} is generated in spite of errors; {}", explain()));
            }
            continue;
        }
        // Everything spread directly or indirectly has to be in the scope of this document
        let mut reached: BTreeSet<usize> = BTreeSet::new();
        let mut todo = nodes[i].spreads.clone();
        while let Some(s) = todo.pop() {
            if reached.insert(s) {
                todo.extend(nodes[s].spreads.iter().copied());
            }
        }
        if !reached.is_subset(&scope) {
            case.label("an imported fragment lacks an import");
            continue;
        }
        let errors_here = nodes
            .iter()
            .enumerate()
            .filter(|(k, _)| scope.contains(k) || *k == i)
            .flat_map(|(_, n)| &n.head)
            .any(|l| match l.target {
                Target::Missing => true,
                Target::Doc(t) => nodes[t].flavour == Flavour::Operation,
            });
        if errors_here && !compiled.files.contains_key(&output) {
            // Whether an unneeded bad import stops the document is not what this is about
            continue;
        }
        let module = compiled.module(&output)?;
        let comparer = Comparer {
            schema: &schema,
            config: &config,
            module: &module,
            aspects: ts::KEYS,
        };
        wrong(
            comparer.document(docs[i].main_name(), &model::doc_shape(&schema, &map, &docs[i])),
            &format!("{output}:\n{}", compiled.files[&output]),
        )?;
        checked += usize::from(!reached.is_empty());
        case.label_if(!reached.is_empty(), "document with imported fragments");
        case.label_if(reached.iter().any(|r| !nodes[i].head.iter().any(|l| l.target == Target::Doc(*r))), "transitive import");
    }
    let any_cycle = (0..count).any(|i| close(&nodes, i).contains(&i));
    case.label_if(any_cycle, "import cycle");
    case.label_if(!missing_wanted.is_empty(), "unreadable import");
    case.label_if(!wrong_wanted.is_empty(), "import of an operation");
    case.label_if(!unknown_wanted.is_empty(), "spread out of scope");
    case.label_if(prefix.is_some(), "with prefix");
    if checked > 0 || !missing_wanted.is_empty() || !wrong_wanted.is_empty() {
        case.nontrivial();
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P05",
        rule: "random trees of 2 to 8 (one in 25 up to 40) documents with random import graphs (cycles, diamonds, self imports), path spellings, prefixes, noise between and after imports, unreadable and wrong targets; non-trivial: an imported fragment is spread, or a bad import has to be reported",
        quick_cases: 24_000,
        thorough_cases: 300_000,
        tape: (20, 260),
        run: p05,
        ..Check::base()
    }]
}
