//! P11: no input makes the compiler crash or hang.

use crate::common::*;
use crate::doc::{gen_layout, long_filler, print_doc};
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::faults::{self, CLASSES};
use crate::run::{self, Invocation, Ran};
use crate::shim::{self, Fault};
use crate::tape::Tape;
use serde_json::{json, Value};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::Path;

/// Whether a run ended the way runs have to end
fn ended_well(case: &mut Case<'_>, invocation: &Invocation) -> Result<Ran, Stop> {
    let mut last = String::new();
    for limits in [(15, 30), (60, 90), (120, 240)] {
        let mut i = invocation.clone();
        i.limits = Some(limits);
        case.stats.runs += 1;
        let ran = run::run(&i)?;
        if ran.timed_out() {
            last = format!("no end within {} s of CPU time", limits.0);
            continue;
        }
        let out = ran.out();
        let diagnostics = out.is_empty()
            || ["error: ", "warning: ", "program error: "].iter().any(|p| out.starts_with(p));
        match ran.code {
            Some(0) if diagnostics && ran.stderr.is_empty() && !out.contains("\nerror: failure due to ") => {}
            Some(1) if diagnostics && ran.stderr.is_empty() && out.contains("error: failure due to ") => {}
            Some(2) if out.is_empty() && ran.err().starts_with("error: ") => {}
            _ => return violation(format!("the run did not end well: {}", ran.describe())),
        }
        return Ok(ran);
    }
    violation(format!("the run does not end: {last}"))
}

// ---------------------------------------------------------------------------------------------
// Bytes

const TOKENS: [&str; 64] = [
    "{", "}", "(", ")", "[", "]", "...", "... on ", "@", "$", "!", ":", "=", "|", "&", "\"", "\"\"\"", "\\", "#", "\n", "\r\n",
    "\r", ",", " ", "\t", "\u{feff}", "\0", "query ", "mutation ", "subscription ", "fragment ", " on ", "on", "true", "null",
    "{ __typename }", "__typename", "-", "0", "-0.0e+999999", "99999999999999999999999999", "1e", "\"\\u00e9\"", "\"\\ud800\"",
    "\"\\u12\"", "#import \"", "#import \"./", "\"", "@include(if: $x)", "$a: [[Int!]!]! = [[1]]", "$a: Unknown", "input X { a: X }",
    "type T implements A & B { a: [T] }", "schema { query: Query }", "é", "☃", "\u{10ffff}", "{a:{b:[$c]}}", "[[[[[[[[[[[[",
    "{{{{{{{{{{{{{{", "((((((((((((", "...F", "a:b", "_",
];

fn mutate(tape: &mut Tape<'_>, bytes: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..tape.range(1, 6) {
        let n = bytes.len();
        let at = tape.below(n + 1);
        match tape.below(11) {
            10 => {
                let t = long_filler(tape);
                bytes.splice(at..at, t.bytes());
            }
            0 | 1 => {
                let t = tape.pick(&TOKENS).as_bytes();
                bytes.splice(at..at, t.iter().copied());
            }
            2 => {
                let end = (at + tape.range(1, 12)).min(n);
                bytes.drain(at..end.max(at));
            }
            3 => {
                let end = (at + tape.range(1, 60)).min(n);
                bytes.drain(at..end.max(at));
            }
            4 => {
                if at < n {
                    bytes[at] = tape.raw() as u8;
                }
            }
            5 => {
                // Duplicate a part elsewhere
                let end = (at + tape.range(1, 40)).min(n).max(at);
                let part = bytes[at..end].to_vec();
                let to = tape.below(n + 1);
                bytes.splice(to..to, part);
            }
            6 => {
                // A part of another document
                let m = other.len();
                let from = tape.below(m + 1);
                let end = (from + tape.range(1, 80)).min(m);
                bytes.splice(at..at, other[from..end.max(from)].iter().copied());
            }
            7 => bytes.truncate(at),
            8 => {
                let t = *tape.pick(&TOKENS);
                for _ in 0..tape.range(2, 70) {
                    bytes.splice(at..at, t.bytes());
                }
            }
            _ => {
                if at < n {
                    bytes[at] ^= 1 << tape.below(8);
                }
            }
        }
    }
}

/// Import lines, most of them damaged
fn import_lines(tape: &mut Tape<'_>) -> String {
    let mut out = String::new();
    if tape.chance(10) {
        out.push('\u{feff}');
    }
    for _ in 0..tape.range(1, 4) {
        out.push_str(*tape.pick(&["#import \"", "#import \"", "#import \"", "#import \"", "#import", "# import \"", "#import  \"", "#import '", " #import \"", "#Import \"", "#import\t\""]));
        for _ in 0..tape.below(4) {
            let part = *tape.pick(&[
                "a.graphql", "./", "../", "/", ".", "..", "é", "☃", "\u{10ffff}", "\u{feff}", "\0", " ", "\\", "~", "@/", "%2e", "\u{301}", "#import \"",
                "sub/", "other/", "*", "?", "//", "\r", "\t", "\u{2028}", "m0.graphql", "root:", "\u{1b}[31m", "/dev/null", "nul", ".graphql",
            ]);
            out.push_str(part);
        }
        if tape.chance(5) {
            out.push_str(&long_filler(tape).replace('\n', ""));
        }
        out.push_str(*tape.pick(&["\"", "\"", "\"", "\"", "", "", "\"\"", "\";", "'", "\" # why", "\"é"]));
        out.push_str(*tape.pick(&["\n", "\n", "\n", "\r\n", "\r", "\n\n", "", "\n# comment\n"]));
    }
    out
}

/// Tokens without any plan
fn soup(tape: &mut Tape<'_>, names: &[String]) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..tape.range(1, 40) {
        if tape.chance(35) {
            out.extend(tape.pick(names).bytes());
            out.push(b' ');
        } else {
            out.extend(tape.pick(&TOKENS).bytes());
        }
    }
    out
}

fn is_known_panic(bytes: &[u8]) -> bool {
    let text = String::from_utf8_lossy(bytes);
    text.contains("\"\"\"") && text.chars().any(|c| c.is_whitespace() && !c.is_ascii())
}

fn documents(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.depth = 2;
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(50);
    let root = case.dir.join("root");
    project.write(&root)?;
    case.note("schema", project.schema.sdl());
    case.note("options", project.config.args().join(" "));
    let mut names: Vec<String> = project.schema.types.iter().map(|t| t.name.clone()).collect();
    names.extend(project.schema.types.iter().flat_map(|t| t.fields.iter().map(|f| f.name.clone())));
    let mut total = 0;
    for n in 0..tape.range(1, 30) {
        let i = tape.below(project.docs.len());
        let j = tape.below(project.docs.len());
        let mut bytes = match tape.below(8) {
            0 => soup(tape, &names),
            1 => {
                let mut b: Vec<u8> = (0..tape.below(60)).map(|_| tape.raw() as u8).collect();
                b.insert(0, b'{');
                b
            }
            2 => {
                let class = *tape.pick(&CLASSES);
                let layout = gen_layout(tape);
                match faults::plant(tape, &project.schema, &project.docs, i, layout, class) {
                    Some(f) if tape.chance(40) => {
                        // The same fault in long lines
                        let mut b = String::new();
                        for line in f.text.lines() {
                            b.push_str(line);
                            if tape.chance(50) {
                                b.push_str(long_filler(tape).trim_start_matches('\n').trim_end());
                            }
                            b.push('\n');
                        }
                        case.label("faults in long lines");
                        b.into_bytes()
                    }
                    Some(f) => {
                        let mut b = f.text.into_bytes();
                        mutate(tape, &mut b, project.printed[j].text.as_bytes());
                        b
                    }
                    None => continue,
                }
            }
            _ => {
                let layout = gen_layout(tape);
                let mut b = print_doc(tape, &project.docs[i], layout).text.into_bytes();
                mutate(tape, &mut b, project.printed[j].text.as_bytes());
                b
            }
        };
        if tape.chance(25) {
            bytes.splice(0..0, import_lines(tape).bytes());
            case.label("damaged import lines");
        }
        if is_known_panic(&bytes) {
            case.exclude("block string and Unicode white space (known finding)");
            continue;
        }
        let dir = *tape.pick(&["", "sub/", "other/"]);
        let path = format!("{dir}m{n}.graphql");
        case.note(path.clone(), format!("{:?}", String::from_utf8_lossy(&bytes)));
        run::write_file(&root.join(path), bytes)?;
        total += 1;
    }
    // Also those that are imported
    if tape.chance(30) {
        let i = tape.below(project.docs.len());
        let mut b = project.printed[i].text.clone().into_bytes();
        mutate(tape, &mut b, b"...Fragment");
        if !is_known_panic(&b) {
            case.note(project.docs[i].path.clone(), format!("{:?}", String::from_utf8_lossy(&b)));
            run::write_file(&root.join(&project.docs[i].path), b)?;
        }
    }
    let ran = ended_well(case, &project.invocation(&root))?;
    case.label("documents");
    case.label_if(ran.code == Some(0), "documents: accepted");
    for _ in 0..total {
        case.label("mutated documents");
    }
    if total > 0 {
        case.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Schemas

/// Paths of all values in a JSON value
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.join("/"));
    match v {
        Value::Object(m) => {
            for (k, v) in m {
                at.push(k.replace('~', "~0").replace('/', "~1"));
                paths(v, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, v) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(v, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

pub fn value_paths(v: &Value) -> Vec<String> {
    let mut out = Vec::new();
    paths(v, &mut Vec::new(), &mut out);
    out.into_iter().map(|p| if p.is_empty() { p } else { format!("/{p}") }).collect()
}

fn odd_value(tape: &mut Tape<'_>, names: &[String]) -> Value {
    match tape.below(14) {
        0 => Value::Null,
        1 => json!(0),
        2 => json!(""),
        3 => json!([]),
        4 => json!({}),
        5 => json!(true),
        6 => json!("LIST"),
        7 => json!("NON_NULL"),
        8 => json!(*tape.pick(&["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR", "object", "THING"])),
        9 => json!({"kind": "LIST", "name": null, "ofType": {"kind": "NON_NULL", "ofType": {"kind": "OBJECT", "name": tape.pick(names)}}}),
        10 => json!({"kind": *tape.pick(&["OBJECT", "SCALAR", "ENUM", "INPUT_OBJECT", "UNION", "LIST", "NON_NULL"]), "name": tape.pick(names)}),
        11 => json!("é\u{0}\"'`\n */ $"),
        12 => json!([{"name": tape.pick(names)}, {"name": "Nowhere"}]),
        _ => json!(tape.pick(names)),
    }
}

fn schemas(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.depth = 2;
    let project = gen_project(tape, &options);
    let root = case.dir.join("root");
    let names: Vec<String> = project
        .schema
        .types
        .iter()
        .map(|t| t.name.clone())
        .chain(["Query".to_string(), "String".into(), "Nope".into(), "__typename".into()])
        .collect();
    let mut v = project.schema.json();
    let bytes: Vec<u8> = match tape.below(6) {
        0 => {
            let mut b = project.schema_text.clone().into_bytes();
            mutate(tape, &mut b, b"{\"kind\":\"OBJECT\",\"name\":\"Query\",\"fields\":[]},[[[{{{");
            b
        }
        1 => {
            // Very deep
            let n = *tape.pick(&[50usize, 120, 127, 128, 200, 5000, 100_000]);
            let open = *tape.pick(&["[", "{\"ofType\":", "{\"a\":", "{\"data\":", "{\"data\":{\"__schema\":{\"types\":["]);
            open.repeat(n).into_bytes()
        }
        _ => {
            for _ in 0..tape.range(1, 6) {
                let all = value_paths(&v);
                let p = tape.pick(&all).clone();
                match tape.below(6) {
                    0 | 1 => {
                        let new = odd_value(tape, &names);
                        if let Some(slot) = v.pointer_mut(&p) {
                            *slot = new;
                        }
                    }
                    2 | 3 => {
                        if let Some((parent, key)) = p.rsplit_once('/') {
                            match v.pointer_mut(parent) {
                                Some(Value::Object(m)) => {
                                    m.remove(key);
                                }
                                Some(Value::Array(a)) => {
                                    if let Ok(i) = key.parse::<usize>() {
                                        a.remove(i);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    4 => {
                        // One part in place of another
                        let q = tape.pick(&all).clone();
                        let copy = v.pointer(&q).cloned().unwrap_or(Value::Null);
                        if copy.to_string().len() < 20_000 {
                            if let Some(slot) = v.pointer_mut(&p) {
                                *slot = copy;
                            }
                        }
                    }
                    _ => {
                        if let Some(Value::Array(a)) = v.pointer_mut(&p) {
                            if !a.is_empty() {
                                let i = tape.below(a.len());
                                let copy = a[i].clone();
                                a.push(copy);
                            } else {
                                a.push(odd_value(tape, &names));
                            }
                        }
                    }
                }
            }
            v.to_string().into_bytes()
        }
    };
    project.write(&root)?;
    let shown = String::from_utf8_lossy(&bytes).chars().take(8000).collect::<String>();
    case.note("schema file", shown);
    for (d, p) in project.docs.iter().zip(&project.printed) {
        case.note(d.path.clone(), p.text.clone());
    }
    run::write_file(&root.join("schema.json"), bytes)?;
    let ran = ended_well(case, &project.invocation(&root))?;
    case.label("schema files");
    case.label_if(ran.out().contains("malformed schema"), "schema files: rejected");
    case.label_if(ran.code == Some(0), "schema files: accepted");
    case.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Configuration and command line

const KEYS: [&str; 11] = [
    "schemaFile", "useCustomScalars", "disableReadonlyTypes", "customScalarPrefix", "numThreads", "showDeprecationWarnings",
    "rootDirImportPrefix", "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "unknown", "rootDir",
];

fn configuration(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.config = false;
    options.docs.depth = 1;
    let project = gen_project(tape, &options);
    let root = case.dir.join("work/root");
    project.write(&root)?;
    let work = case.dir.join("work");
    if tape.chance(70) {
        let mut m = serde_json::Map::new();
        for _ in 0..tape.below(6) {
            let v = match tape.below(12) {
                0 => Value::Null,
                1 => json!(true),
                2 => json!(-1),
                3 => json!(1e300),
                4 => json!(4_000_000_000_000u64),
                5 => json!("root/schema.json"),
                6 => json!(""),
                7 => json!("é☃\u{0}"),
                8 => json!(["a"]),
                9 => json!({"a": 1}),
                10 => json!(7),
                _ => json!("../x/../y z"),
            };
            m.insert(tape.pick(&KEYS).to_string(), v);
        }
        let mut bytes = Value::Object(m).to_string().into_bytes();
        if tape.chance(30) {
            mutate(tape, &mut bytes, b"{\"numThreads\": 3, \"schemaFile\": [[");
        }
        case.note("config", format!("{:?}", String::from_utf8_lossy(&bytes)));
        run::write_file(&work.join(".qlcrc.json"), bytes)?;
    }
    let mut args: Vec<OsString> = Vec::new();
    for _ in 0..tape.below(7) {
        let flag = *tape.pick(&[
            "--config-file", "-c", "--schema-path", "-s", "--use-custom-scalars", "--custom-scalar-prefix",
            "--root-dir-import-prefix", "--global-types-module-name", "--typed-graphql-documentnode-module-name",
            "--disable-readonly-types", "--show-deprecation-warnings", "--num-threads", "--no-color", "--nope", "-x", "--",
        ]);
        let value: OsString = match tape.below(16) {
            0 => "".into(),
            1 => "0".into(),
            2 => "18446744073709551615".into(),
            3 => "-5".into(),
            4 => OsString::from_vec(vec![b'a', 0xff, b'b']),
            5 => "root".into(),
            6 => "root/schema.json".into(),
            7 => ".qlcrc.json".into(),
            8 => "nowhere/x".into(),
            9 => ".".into(),
            10 => "$é\n".into(),
            11 => "a/b".into(),
            12 => "18446744073709551616".into(),
            13 => "x.json".into(),
            14 => "3".into(),
            _ => "@/".into(),
        };
        match tape.below(3) {
            0 => args.push(flag.into()),
            1 => {
                args.push(flag.into());
                args.push(value);
            }
            _ => {
                let mut joined = OsString::from(flag);
                joined.push("=");
                joined.push(value);
                args.push(joined);
            }
        }
    }
    let root_arg: Option<OsString> = match tape.below(8) {
        0 => None,
        1 => Some("nowhere".into()),
        2 => Some("root/schema.json".into()),
        3 => Some("".into()),
        4 => Some(OsString::from_vec(vec![b'r', 0xc0])),
        _ => Some("root".into()),
    };
    args.extend(root_arg);
    let shown = args.iter().map(|a| format!("{:?}", a.to_string_lossy())).collect::<Vec<_>>().join(" ");
    // Not to wander off: directories above are not for documents either
    case.note("arguments", shown);
    let mut invocation = Invocation::default();
    invocation.cwd = Some(work);
    invocation.args = args;
    let ran = ended_well(case, &invocation)?;
    case.label("configurations");
    case.label_if(ran.code == Some(0), "configurations: accepted");
    case.label_if(ran.code == Some(2), "configurations: misuse");
    case.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Recursion

fn recursion(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let root = case.dir.join("root");
    // Types in rings: objects, inputs, interfaces that include each other
    let n = tape.range(1, 5);
    let mut types = vec![
        json!({"kind": "SCALAR", "name": "String"}),
        json!({"kind": "SCALAR", "name": "Boolean"}),
    ];
    let wrapped = |tape: &mut Tape<'_>, kind: &str, name: String| {
        let mut t = json!({"kind": kind, "name": name});
        for _ in 0..tape.below(4) {
            t = json!({"kind": *tape.pick(&["LIST", "NON_NULL"]), "ofType": t});
        }
        t
    };
    for k in 0..n {
        let other = tape.below(n);
        let object = if k == 0 { "Query".to_string() } else { format!("T{k}") };
        let name_of = |k: usize| if k == 0 { "Query".to_string() } else { format!("T{k}") };
        types.push(json!({"kind": "OBJECT", "name": object, "interfaces": [], "fields": [
            {"name": "s", "type": {"kind": "SCALAR", "name": "String"}},
            {"name": "o", "type": wrapped(tape, "OBJECT", name_of((k + 1) % n))},
            {"name": "i", "type": wrapped(tape, "INTERFACE", format!("I{other}"))},
            {"name": "u", "type": wrapped(tape, "UNION", format!("U{other}"))},
        ]}));
        types.push(json!({"kind": "INTERFACE", "name": format!("I{k}"), "fields": [
            {"name": "s", "type": {"kind": "SCALAR", "name": "String"}},
            {"name": "i", "type": wrapped(tape, "INTERFACE", format!("I{other}"))},
            {"name": "o", "type": wrapped(tape, "OBJECT", name_of(other))}],
            "possibleTypes": (0..tape.range(0, 2)).map(|_| json!({"name": name_of(tape.below(n))})).collect::<Vec<_>>()}));
        types.push(json!({"kind": "UNION", "name": format!("U{k}"), "possibleTypes":
            (0..tape.range(0, 2)).map(|_| json!({"name": *tape.pick(&[name_of(other), name_of(k), format!("U{k}"), format!("I{k}"), "String".into(), "Nope".into()])})).collect::<Vec<_>>()}));
        types.push(json!({"kind": "INPUT_OBJECT", "name": format!("In{k}"), "inputFields": [
            {"name": "next", "type": wrapped(tape, "INPUT_OBJECT", format!("In{}", (k + 1) % n))},
            {"name": "other", "type": wrapped(tape, "INPUT_OBJECT", format!("In{other}"))}]}));
    }
    let schema = json!({"data": {"__schema": {"types": types}}});
    case.note("schema", schema.to_string());
    run::write_file(&root.join("schema.json"), schema.to_string())?;
    // A random graph of fragments with cycles, and imports of their own
    let m = tape.range(1, 8);
    for k in 0..m {
        let mut text = String::new();
        for _ in 0..tape.below(4) {
            let line = match tape.below(6) {
                0 => format!("f{k}"),
                1 => "nowhere".into(),
                2 => "../root/f0".into(),
                _ => format!("f{}", tape.below(m)),
            };
            text.push_str(&format!("#import \"./{line}.graphql\"\n"));
        }
        let on = tape
            .pick(&["Query", "T1", "I0", "U0", "I1", "In0", "String"])
            .to_string();
        let mut body = String::new();
        for _ in 0..tape.range(1, 3) {
            let spread = format!("...F{} ", tape.below(m));
            let part = match tape.below(7) {
                0 => format!("o {{ {spread}}} "),
                1 => format!("i {{ {spread}s }} "),
                2 => format!("u {{ {spread}__typename }} "),
                3 => format!("... on I0 {{ {spread}}} "),
                4 => "s ".to_string(),
                _ => spread,
            };
            body.push_str(&part);
        }
        if tape.chance(30) {
            text.push_str(&format!("query F{k}($a: In{}, $b: [In0!]!) {{ {body}}}", tape.below(n)));
        } else {
            text.push_str(&format!("fragment F{k} on {on} {{ {body}}}"));
        }
        case.note(format!("f{k}.graphql"), text.clone());
        run::write_file(&root.join(format!("f{k}.graphql")), text)?;
    }
    let mut invocation = Invocation::default().arg(&root);
    if tape.chance(50) {
        invocation = invocation.arg("--use-custom-scalars");
    }
    let ran = ended_well(case, &invocation)?;
    case.label("recursive inputs");
    case.label_if(ran.out().contains("cyclic spread"), "recursive inputs: cyclic fragments");
    case.nontrivial();
    Ok(())
}

fn p11(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    match tape.below(10) {
        0..=5 => documents(tape, case),
        6 | 7 => schemas(tape, case),
        8 => configuration(tape, case),
        _ => recursion(tape, case),
    }
}

// ---------------------------------------------------------------------------------------------
// Fixed inputs

fn simple_schema(kinds: usize) -> String {
    let scalar = json!({"kind": "SCALAR", "name": "String"});
    let interface = json!({"kind": "INTERFACE", "name": "I"});
    let query = json!({"kind": "OBJECT", "name": "Query"});
    let fields = json!([{"name": "s", "type": scalar}, {"name": "i", "type": interface}, {"name": "q", "type": query}]);
    let mut types = vec![scalar.clone(), json!({"kind": "OBJECT", "name": "Query", "fields": fields, "interfaces": []})];
    let possible: Vec<Value> = (0..kinds).map(|k| json!({"name": format!("T{k}")})).collect();
    types.push(json!({"kind": "INTERFACE", "name": "I", "fields": fields, "possibleTypes": possible}));
    for k in 0..kinds {
        types.push(json!({"kind": "OBJECT", "name": format!("T{k}"), "fields": fields, "interfaces": []}));
    }
    json!({"data": {"__schema": {"types": types}}}).to_string()
}

fn plain(case: &mut Case<'_>, kinds: usize, docs: Vec<(String, String)>) -> Result<(Invocation, std::path::PathBuf), Stop> {
    let root = case.dir.join("root");
    run::write_file(&root.join("schema.json"), simple_schema(kinds))?;
    for (path, text) in docs {
        run::write_file(&root.join(path), text)?;
    }
    Ok((Invocation::default().arg(&root), root))
}

fn accepted(case: &mut Case<'_>, invocation: &Invocation, root: &Path, output: &str) -> Outcome {
    let ran = ended_well(case, invocation)?;
    if ran.code != Some(0) || !root.join(output).exists() {
        let mut text = ran.describe();
        text.truncate(1500);
        return violation(format!("deep but legal input is not compiled: {text}"));
    }
    Ok(())
}

fn import_chain(case: &mut Case<'_>) -> Outcome {
    let n = 5000;
    let mut docs: Vec<(String, String)> = (0..n)
        .map(|k| {
            let import = if k + 1 < n { format!("#import \"./f{}.graphql\"\n", k + 1) } else { String::new() };
            (format!("../chain/f{k}.graphql"), format!("{import}fragment F{k} on Query {{ s }}"))
        })
        .collect();
    docs.push(("a.graphql".into(), format!("#import \"../chain/f0.graphql\"\nquery Q {{ ...F{} }}", n - 1)));
    let (i, root) = plain(case, 1, docs)?;
    accepted(case, &i, &root, "a.graphql.d.ts")
}

fn deep_nesting(case: &mut Case<'_>) -> Outcome {
    let (n, d) = (15, 40);
    let mut docs: Vec<(String, String)> = (0..n)
        .map(|k| {
            let (import, inner) = if k + 1 < n {
                (format!("#import \"./f{}.graphql\"\n", k + 1), format!("...F{}", k + 1))
            } else {
                (String::new(), "s".to_string())
            };
            let body = format!("{}{inner}{}", "q { ".repeat(d), " }".repeat(d));
            (format!("../chain/f{k}.graphql"), format!("{import}fragment F{k} on Query {{ {body} }}"))
        })
        .collect();
    docs.push(("a.graphql".into(), "#import \"../chain/f0.graphql\"\nquery Q { ...F0 }".into()));
    let (i, root) = plain(case, 1, docs)?;
    accepted(case, &i, &root, "a.graphql.d.ts")
}

fn spread_chain(case: &mut Case<'_>) -> Outcome {
    let n = 1200;
    let mut docs: Vec<(String, String)> = (0..n)
        .map(|k| {
            let (import, inner) = if k + 1 < n {
                (format!("#import \"./f{}.graphql\"\n", k + 1), format!("...F{}", k + 1))
            } else {
                (String::new(), "s".to_string())
            };
            (format!("../chain/f{k}.graphql"), format!("{import}fragment F{k} on Query {{ {inner} }}"))
        })
        .collect();
    docs.push(("a.graphql".into(), "#import \"../chain/f0.graphql\"\nquery Q { ...F0 }".into()));
    let (i, root) = plain(case, 1, docs)?;
    accepted(case, &i, &root, "a.graphql.d.ts")
}

fn wide(case: &mut Case<'_>) -> Outcome {
    let fields: String = (0..20_000).map(|k| format!("a{k}: s ")).collect();
    let vars: String = (0..2000).map(|k| format!("$v{k}: String ")).collect();
    let (i, root) = plain(case, 1, vec![("a.graphql".into(), format!("query Q({vars}) {{ {fields} }}"))])?;
    accepted(case, &i, &root, "a.graphql.d.ts")
}

fn long_input_chain(case: &mut Case<'_>) -> Outcome {
    let root = case.dir.join("root");
    let n = 20_000;
    let mut types = vec![
        json!({"kind": "SCALAR", "name": "String"}),
        json!({"kind": "OBJECT", "name": "Query", "interfaces": [], "fields": [{"name": "s", "type": {"kind": "SCALAR", "name": "String"}}]}),
    ];
    for k in 0..n {
        types.push(json!({"kind": "INPUT_OBJECT", "name": format!("In{k}"), "inputFields": [
            {"name": "next", "type": {"kind": "INPUT_OBJECT", "name": format!("In{}", (k + 1) % n)}}]}));
    }
    run::write_file(&root.join("schema.json"), json!({"data": {"__schema": {"types": types}}}).to_string())?;
    run::write_file(&root.join("a.graphql"), "query Q($v: In0) { s }")?;
    accepted(case, &Invocation::default().arg(&root), &root, "graphql-globals.ts")
}

fn many_threads(case: &mut Case<'_>) -> Outcome {
    let (i, root) = plain(case, 1, vec![("a.graphql".into(), "query Q { s }".into())])?;
    accepted(case, &i.arg("--num-threads").arg("1000000000"), &root, "a.graphql.d.ts")
}

/// One error, on a line with a number of each length
fn late_errors(case: &mut Case<'_>) -> Outcome {
    for line in [1, 9, 10, 99, 100, 999, 1000, 9999, 10_000, 99_999, 100_000, 1_000_000, 10_000_000] {
        let text = format!("{}query Q {{ nope }}", "\n".repeat(line - 1));
        let (i, _) = plain(case, 1, vec![("a.graphql".into(), text)])?;
        let ran = ended_well(case, &i)?;
        if ran.code != Some(1) || !ran.out().contains(&format!("{line}:")) {
            let mut text = ran.describe();
            text.truncate(1500);
            return violation(format!("an error on line {line} is not reported: {text}"));
        }
    }
    Ok(())
}

fn no_threads(case: &mut Case<'_>) -> Outcome {
    for threads in ["1", "8"] {
        let (mut i, root) = plain(case, 1, vec![("a.graphql".into(), "query Q { s }".into())])?;
        i = i.arg("--num-threads").arg(threads);
        let fault = Fault {
            kind: "thread".into(),
            n: 0,
            path: String::new(),
            action: "eio",
        };
        shim::instrument(&mut i, &root, None, &[fault], None);
        let ran = run::run(&i)?;
        let there = root.join("a.graphql.d.ts").is_file();
        if !(ran.code == Some(1) && !ran.out().is_empty() || ran.code == Some(0) && there) {
            return violation(format!("no thread can be started: {}", ran.describe()));
        }
    }
    Ok(())
}

fn known_block_string(case: &mut Case<'_>) -> Result<bool, Stop> {
    let text = "query Q { s(a: \"\"\"\n a\n\u{3000}b\n\"\"\") }";
    let (mut i, _) = plain(case, 1, vec![("a.graphql".into(), text.into())])?;
    i.limits = Some((60, 120));
    let ran = run::run(&i)?;
    Ok(ran.code == Some(101) && ran.err().contains("graphql-parser") && ran.err().contains("char boundary"))
}

fn known_interfaces(case: &mut Case<'_>) -> Result<bool, Stop> {
    let text = format!("query Q {{ {}s{} }}", "i { ".repeat(24), " }".repeat(24));
    let (mut i, _) = plain(case, 2, vec![("a.graphql".into(), text)])?;
    i.limits = Some((3, 60));
    let ran = run::run(&i)?;
    Ok(ran.signal == Some(libc::SIGXCPU) || ran.signal == Some(libc::SIGKILL))
}

fn known_doubling(case: &mut Case<'_>) -> Result<bool, Stop> {
    let n = 30;
    let mut docs: Vec<(String, String)> = (0..n)
        .map(|k| {
            (
                format!("../chain/f{k}.graphql"),
                format!("#import \"./f{}.graphql\"\nfragment F{k} on Query {{ ...F{} ...F{} }}", k + 1, k + 1, k + 1),
            )
        })
        .collect();
    docs.push((format!("../chain/f{n}.graphql"), format!("fragment F{n} on Query {{ s }}")));
    docs.push(("a.graphql".into(), "#import \"../chain/f0.graphql\"\nquery Q { ...F0 }".into()));
    let (mut i, _) = plain(case, 1, docs)?;
    i.limits = Some((3, 60));
    let ran = run::run(&i)?;
    Ok(ran.signal == Some(libc::SIGXCPU) || ran.signal == Some(libc::SIGKILL))
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P11",
        rule: "six in ten cases: up to 30 documents made from valid ones by byte, token and splice mutations, from planted faults, from tokens or from random bytes, compiled together; otherwise mutated or very deep schema files, odd configuration files and arguments, and rings of types, fragments and imports; non-trivial: something was mutated",
        quick_cases: 12_000,
        thorough_cases: 600_000,
        tape: (300, 3500),
        shrink_iters: 800,
        run: p11,
        prepare: Some(shim::prepare),
        fixed: &[
            ("chain of 5000 imports", import_chain),
            ("600 levels of selections through fragments", deep_nesting),
            ("1200 fragments that spread the next", spread_chain),
            ("20000 fields and 2000 variables", wide),
            ("ring of 20000 input objects", long_input_chain),
            ("a billion threads", many_threads),
            ("an error on line 1, 9, 10, …, 10000000", late_errors),
            ("no thread can be started", no_threads),
        ],
        known: &[
            ("graphql-parser panics on a block string whose lines are indented with different Unicode white space", known_block_string),
            ("selections nested n deep through an interface or union of k types take k^n time and memory", known_interfaces),
            ("n fragments that each spread the next one twice take 2^n time", known_doubling),
        ],
        ..Check::base()
    }]
}
