//! P13: every split of the options between command line, config file and defaults means the same.

use crate::common::*;
use crate::diag::{self, Diag};
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::model::Config;
use crate::run::{self, expect_clean, Invocation, Ran};
use crate::shim;
use crate::tape::Tape;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

type Files = BTreeMap<PathBuf, Vec<u8>>;

const VISIBLE_SCHEMA: &str = r#"{"data":{"__schema":{"types":[
{"kind":"OBJECT","name":"Query","fields":[
 {"name":"when","type":{"kind":"NON_NULL","ofType":{"kind":"SCALAR","name":"Date"}}},
 {"name":"color","type":{"kind":"ENUM","name":"Color"}},
 {"name":"old","type":{"kind":"SCALAR","name":"String"},"isDeprecated":true,"deprecationReason":"too old"},
 {"name":"node","type":{"kind":"OBJECT","name":"Node"}}],"interfaces":[]},
{"kind":"OBJECT","name":"Node","fields":[{"name":"at","type":{"kind":"LIST","ofType":{"kind":"SCALAR","name":"Date"}}}],"interfaces":[]},
{"kind":"INPUT_OBJECT","name":"In","inputFields":[{"name":"since","type":{"kind":"SCALAR","name":"Date"}},{"name":"colors","type":{"kind":"LIST","ofType":{"kind":"ENUM","name":"Color"}}}]},
{"kind":"ENUM","name":"Color","enumValues":[{"name":"RED"},{"name":"GREEN"}]},
{"kind":"SCALAR","name":"Date"},{"kind":"SCALAR","name":"String"},{"kind":"SCALAR","name":"Boolean"}]}}}"#;

/// Compiles as well, but to something else
const OTHER_SCHEMA: &str = r#"{"data":{"__schema":{"types":[
{"kind":"OBJECT","name":"Query","fields":[{"name":"nothing","type":{"kind":"SCALAR","name":"String"}}],"interfaces":[]},
{"kind":"SCALAR","name":"String"}]}}}"#;

fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

/// Both relative to the same directory, without dots
fn relative(from: &Path, to: &Path) -> PathBuf {
    let a: Vec<_> = from.components().collect();
    let b: Vec<_> = to.components().collect();
    let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut out = PathBuf::new();
    for _ in common..a.len() {
        out.push("..");
    }
    for c in &b[common..] {
        out.push(c);
    }
    if out.as_os_str().is_empty() {
        out.push(".");
    }
    out
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Given {
    Nowhere,
    CommandLine,
    ConfigFile,
    Both,
}

fn given(tape: &mut Tape<'_>) -> Given {
    *tape.pick(&[Given::CommandLine, Given::ConfigFile, Given::Both])
}

/// How a path may be written
fn spell(tape: &mut Tape<'_>, base: &Path, from: &Path, to: &Path) -> PathBuf {
    match tape.below(4) {
        0 | 1 => relative(from, to),
        2 => {
            let r = relative(from, to);
            if tape.chance(50) {
                PathBuf::from(".").join(r)
            } else {
                // A detour
                let last = from.file_name().map(PathBuf::from);
                match last {
                    Some(last) => PathBuf::from("..").join(last).join(r),
                    None => r,
                }
            }
        }
        _ => base.join(to),
    }
}

fn spelled_json(tape: &mut Tape<'_>, v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            tape.shuffle(&mut keys);
            let space = *tape.pick(&["", " ", "\n\t"]);
            let parts: Vec<String> = keys
                .into_iter()
                .map(|k| format!("{space}{}{space}:{}", spelled_json(tape, &json!(k)), spelled_json(tape, &m[k])))
                .collect();
            format!("{{{}{space}}}", parts.join(","))
        }
        Value::String(s) if tape.chance(20) => {
            let mut out = String::from("\"");
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04x}"));
            }
            out.push('"');
            out
        }
        other => other.to_string(),
    }
}

struct Split {
    /// Flags as groups that stay together
    args: Vec<Vec<String>>,
    config: Map<String, Value>,
    both: usize,
    in_config: usize,
}

impl Split {
    fn value(&mut self, tape: &mut Tape<'_>, flag: &str, key: &str, value: &str, loser: &str, number: bool) {
        let g = given(tape);
        self.value_at(tape, g, flag, key, value, loser, number)
    }

    fn value_at(&mut self, tape: &mut Tape<'_>, g: Given, flag: &str, key: &str, value: &str, loser: &str, number: bool) {
        if g == Given::CommandLine || g == Given::Both {
            if tape.chance(40) {
                self.args.push(vec![format!("{flag}={value}")]);
            } else {
                self.args.push(vec![flag.to_string(), value.to_string()]);
            }
        }
        let json = |v: &str| if number { json!(v.parse::<u64>().unwrap()) } else { json!(v) };
        if g == Given::ConfigFile {
            self.in_config += 1;
            self.config.insert(key.into(), json(value));
        }
        if g == Given::Both {
            self.both += 1;
            let v = if tape.chance(15) { value } else { loser };
            self.config.insert(key.into(), json(v));
        }
    }

    fn switch(&mut self, tape: &mut Tape<'_>, flag: &str, key: &str, on: bool) -> Given {
        if !on {
            if tape.chance(40) {
                self.config.insert(key.into(), json!(false));
            }
            return Given::Nowhere;
        }
        let g = given(tape);
        if g != Given::ConfigFile {
            self.args.push(vec![flag.to_string()]);
        }
        match g {
            Given::ConfigFile => {
                self.in_config += 1;
                self.config.insert(key.into(), json!(true));
            }
            Given::Both => {
                self.both += 1;
                let value = tape.chance(50);
                self.config.insert(key.into(), json!(value));
            }
            _ => {}
        }
        g
    }
}

fn decoy_config(tape: &mut Tape<'_>) -> String {
    match tape.below(4) {
        0 => "{ not json".into(),
        1 => json!({"schemaFile": "nowhere/at/all.json"}).to_string(),
        _ => json!({
            "useCustomScalars": true, "customScalarPrefix": "Decoy", "disableReadonlyTypes": true,
            "showDeprecationWarnings": true, "rootDirImportPrefix": "decoy/", "numThreads": 3,
            "globalTypesModuleName": "decoy", "typedGraphqlDocumentnodeModuleName": "decoy",
        })
        .to_string(),
    }
}

fn decoy_schema(tape: &mut Tape<'_>) -> Vec<u8> {
    match tape.below(3) {
        0 => b"{".to_vec(),
        1 => b"{\"data\":{}}".to_vec(),
        _ => OTHER_SCHEMA.as_bytes().to_vec(),
    }
}

fn visible_documents(config: &Config, root: &Path) -> Files {
    let prefix = config.prefix.clone().unwrap_or_default();
    let mut files = Files::new();
    let query = format!("#import \"{prefix}sub/frag.graphql\"\nquery Q($in: In) {{ when color old node {{ ...F }} }}\n");
    files.insert(root.join("q.graphql"), query.into_bytes());
    files.insert(root.join("sub/frag.graphql"), b"fragment F on Node { at }\n".to_vec());
    files
}

/// What the options show in the output of the documents above
fn visible(config: &Config, root: &Path, after: &BTreeMap<String, Vec<u8>>, report: &diag::Report) -> Result<(), String> {
    let text = |rel: &str| -> Result<String, String> {
        let k = root.join(rel).to_string_lossy().into_owned();
        match after.get(&k) {
            Some(v) => Ok(String::from_utf8_lossy(v).split_whitespace().collect::<Vec<_>>().join(" ")),
            None => Err(format!("{k} is missing")),
        }
    };
    let squeezed = |s: &str| s.replace(' ', "");
    let query = text("q.graphql.d.ts")?;
    let globals = text(&config.globals_file())?;
    if query.contains("readonly ") == config.mutable {
        return Err("properties are readonly or not against the option".to_string());
    }
    if !globals.contains("since") || !globals.contains("Color") {
        return Err(format!("globals are incomplete: {globals}"));
    }
    let scalar = config.scalar("Date");
    if !squeezed(&query).contains(&format!("when:{scalar};")) {
        return Err(format!("`when` is not {scalar}"));
    }
    let module = config.node_module_name();
    if !query.contains(&format!("\"{module}\"")) && !query.contains(&format!("'{module}'")) {
        return Err(format!("{module} is not imported"));
    }
    let warnings = report.warning_list().len();
    if warnings != usize::from(config.deprecations) {
        return Err(format!("{warnings} deprecation warnings"));
    }
    Ok(())
}

fn write_tree(base: &Path, dirs: &[&Path], files: &Files) -> Result<(), Stop> {
    for d in dirs {
        mkdir(&base.join(d))?;
    }
    for (p, text) in files {
        run::write_file(&base.join(p), text)?;
    }
    Ok(())
}

fn shown(report: &diag::Report, base: &Path) -> Vec<Diag> {
    let b = base.to_string_lossy().into_owned();
    let mut v: Vec<Diag> = report
        .diags
        .iter()
        .map(|d| {
            let mut d = d.clone();
            d.path = d.path.map(|p| p.replace(&b, "<base>"));
            d.text = d.text.replace(&b, "<base>");
            d
        })
        .collect();
    v.sort();
    v
}

fn threads_started(log: &Path) -> usize {
    shim::read_log(log).iter().filter(|o| o.kind == "thread").count()
}

fn call(case: &mut Case<'_>, invocation: &Invocation) -> Result<(Ran, diag::Report), Stop> {
    case.stats.runs += 1;
    let ran = run::run(invocation)?;
    expect_clean(&ran)?;
    match diag::parse(&ran.out()) {
        Ok(r) => Ok((ran, r)),
        Err(e) => violation(format!("{e}; {}", ran.describe())),
    }
}

fn splits(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let here = case.dir.join("here");
    let there = case.dir.join("there");

    // What to compile
    let own = tape.chance(40);
    let mut config;
    let mut files = Files::new();
    let root = PathBuf::from(*tape.pick(&["proj", "proj/src", "a b/proj", "."]));
    let schema_text;
    if own {
        let project = gen_project(tape, &ProjectOptions::default());
        config = project.config.clone();
        for (d, p) in project.docs.iter().zip(&project.printed) {
            files.insert(lexical(&root.join(&d.path)), p.text.clone().into_bytes());
        }
        schema_text = project.schema_text.clone();
    } else {
        config = gen_config(tape);
        if config.globals.as_deref().map_or(false, |g| g.ends_with(".d.ts")) {
            config.globals = None;
        }
        files.extend(visible_documents(&config, &lexical(&root)));
        schema_text = VISIBLE_SCHEMA.to_string();
    }
    config.deprecations = tape.chance(50);
    if config.threads.is_none() && tape.chance(30) {
        config.threads = Some(tape.range(1, 12));
    }

    // Where things are
    let root = lexical(&root);
    let cwd = match tape.below(5) {
        0 => PathBuf::new(),
        1 => PathBuf::from("work"),
        2 => root.clone(),
        3 => root.join("inner"),
        _ => PathBuf::from("work/deeper"),
    };
    let named = tape.chance(50);
    let config_dir = if named {
        tape.pick(&[cwd.clone(), PathBuf::from("conf"), root.clone(), cwd.join("conf"), PathBuf::new()]).clone()
    } else {
        cwd.clone()
    };
    let config_name = if named {
        *tape.pick(&["qlc.json", "conf", ".qlcrc.json", "my config.json", "x.graphql.json"])
    } else {
        ".qlcrc.json"
    };
    let config_file = config_dir.join(config_name);

    // Options
    let mut split = Split {
        args: Vec::new(),
        config: Map::new(),
        both: 0,
        in_config: 0,
    };
    let scalars = split.switch(tape, "--use-custom-scalars", "useCustomScalars", config.custom_scalars);
    match &config.scalar_prefix {
        Some(p) => {
            // On the command line it requires the other flag there
            let g = if scalars == Given::ConfigFile { Given::ConfigFile } else { given(tape) };
            split.value_at(tape, g, "--custom-scalar-prefix", "customScalarPrefix", p, "Loser", false);
        }
        None if !config.custom_scalars && tape.chance(40) => {
            split.config.insert("customScalarPrefix".into(), json!("Unused"));
        }
        None => {}
    }
    split.switch(tape, "--disable-readonly-types", "disableReadonlyTypes", config.mutable);
    split.switch(tape, "--show-deprecation-warnings", "showDeprecationWarnings", config.deprecations);
    if let Some(p) = &config.prefix {
        split.value(tape, "--root-dir-import-prefix", "rootDirImportPrefix", p, "loser/", false);
    }
    if let Some(p) = &config.globals {
        split.value(tape, "--global-types-module-name", "globalTypesModuleName", p, "loser-globals", false);
    }
    if let Some(p) = &config.node_module {
        let (flag, key) = ("--typed-graphql-documentnode-module-name", "typedGraphqlDocumentnodeModuleName");
        split.value(tape, flag, key, p, "loser-module", false);
    }
    if let Some(n) = config.threads {
        let loser = if n > 6 { "2" } else { "15" };
        split.value(tape, "--num-threads", "numThreads", &n.to_string(), loser, true);
    }

    // The schema
    let schema_given = *tape.pick(&[Given::Nowhere, Given::CommandLine, Given::ConfigFile, Given::Both]);
    let mut decoys: Vec<PathBuf> = Vec::new();
    let schema_file = match schema_given {
        Given::Nowhere => root.join("schema.json"),
        _ => {
            let dirs = [root.clone(), cwd.clone(), config_dir.clone(), PathBuf::new(), PathBuf::from("schemas/x")];
            tape.pick(&dirs).join(*tape.pick(&["schema.json", "s.json", "api schema.json", "introspection"]))
        }
    };
    let mut spelled = Vec::new();
    if matches!(schema_given, Given::CommandLine | Given::Both) {
        let s = spell(tape, &here, &cwd, &schema_file);
        spelled.push(s.clone());
        let s = s.to_string_lossy().into_owned();
        split.args.push(match tape.below(4) {
            0 => vec!["-s".into(), s],
            1 => vec![format!("-s{s}")],
            2 => vec![format!("--schema-path={s}")],
            _ => vec!["--schema-path".into(), s],
        });
    }
    match schema_given {
        Given::ConfigFile => {
            split.in_config += 1;
            let s = spell(tape, &here, &config_dir, &schema_file);
            split.config.insert("schemaFile".into(), json!(s.to_string_lossy()));
            spelled.push(s);
        }
        Given::Both => {
            split.both += 1;
            let s = *tape.pick(&["schema.json", "other.json", "../other.json", "no/such/file.json", "/nonexistent/x.json"]);
            split.config.insert("schemaFile".into(), json!(s));
            let at = lexical(&config_dir.join(s));
            let escapes = s.starts_with("..") && config_dir.as_os_str().is_empty();
            if !s.starts_with('/') && !escapes && tape.chance(60) {
                decoys.push(at);
            }
        }
        _ => {}
    }
    // Where it would be if a path were taken relative to something else
    for s in spelled.iter().filter(|s| s.is_relative()) {
        for d in [&cwd, &root, &config_dir, &PathBuf::new()] {
            let mut depth = d.components().count() as i32;
            let mut inside = true;
            for c in s.components() {
                match c {
                    Component::ParentDir => depth -= 1,
                    Component::CurDir => {}
                    _ => depth += 1,
                }
                inside &= depth >= 0;
            }
            if inside && tape.chance(60) {
                decoys.push(lexical(&d.join(s)));
            }
        }
    }
    if schema_given != Given::Nowhere && tape.chance(70) {
        decoys.push(root.join("schema.json"));
    }
    let use_config = !split.config.is_empty() || named || tape.chance(30);
    decoys.retain(|d| *d != schema_file && *d != config_file && !files.contains_key(d));
    let with_decoys = !decoys.is_empty();
    for d in decoys {
        // Not where a directory has to be
        if [&cwd, &root, &config_dir].iter().any(|x| x.starts_with(&d))
            || schema_file.starts_with(&d)
            || config_file.starts_with(&d)
            || d.starts_with(&schema_file)
            || d.starts_with(&config_file)
            || files.keys().any(|f| f.starts_with(&d) || d.starts_with(f))
        {
            continue;
        }
        let text = decoy_schema(tape);
        files.insert(d, text);
    }
    if schema_file.starts_with(&config_file) || config_file.starts_with(&schema_file) {
        case.exclude("schema and config file would be the same");
        return Ok(());
    }
    files.insert(schema_file.clone(), schema_text.into_bytes());

    // Config files: the one that counts, and others
    let mut config_files = Files::new();
    if use_config {
        config_files.insert(config_file.clone(), spelled_json(tape, &Value::Object(split.config.clone())).into_bytes());
        if named {
            let s = spell(tape, &here, &cwd, &config_file).to_string_lossy().into_owned();
            split.args.push(match tape.below(4) {
                0 => vec!["-c".into(), s],
                1 => vec![format!("-c{s}")],
                2 => vec![format!("--config-file={s}")],
                _ => vec!["--config-file".into(), s],
            });
        }
    }
    let mut places = vec![PathBuf::new(), root.clone(), config_dir.clone()];
    if named && use_config {
        places.push(cwd.clone());
    } else {
        places.retain(|p| *p != cwd);
    }
    let mut with_decoy_config = false;
    for p in places {
        let at = p.join(".qlcrc.json");
        if !config_files.contains_key(&at) && !files.contains_key(&at) && tape.chance(50) {
            with_decoy_config = true;
            let text = decoy_config(tape);
            config_files.insert(at, text.into_bytes());
        }
    }

    // Both runs
    let root_arg: Option<String> = if root == cwd && tape.chance(60) {
        None
    } else if tape.chance(30) {
        Some("<absolute>".into())
    } else {
        let mut s = relative(&cwd, &root).to_string_lossy().into_owned();
        if tape.chance(20) {
            s.push('/');
        }
        Some(s)
    };
    let mut groups: Vec<Vec<String>> = split.args.clone();
    tape.shuffle(&mut groups);
    let at = tape.below(groups.len() + 1);
    let mut here_args: Vec<String> = Vec::new();
    let absolute = |base: &Path, r: &str| if r == "<absolute>" { base.join(&root).to_string_lossy().into_owned() } else { r.to_string() };
    for (i, g) in groups.iter().enumerate() {
        if i == at {
            here_args.extend(root_arg.as_ref().map(|r| absolute(&here, r)));
        }
        here_args.extend(g.iter().cloned());
    }
    if at == groups.len() {
        here_args.extend(root_arg.as_ref().map(|r| absolute(&here, r)));
    }
    let mut there_args: Vec<String> = vec!["-s".into(), there.join(&schema_file).to_string_lossy().into_owned()];
    there_args.extend(config.args());
    there_args.extend(root_arg.as_ref().map(|r| absolute(&there, r)));

    case.note("arguments", format!("(in {}/) {here_args:?}", cwd.display()));
    for (p, t) in config_files.iter().chain(&files) {
        let t = String::from_utf8_lossy(t).into_owned();
        case.note(p.to_string_lossy(), if t.len() > 3000 { format!("({} bytes)", t.len()) } else { t });
    }
    case.note("equivalent", there_args.join(" "));

    let dirs = [cwd.as_path(), root.as_path(), config_dir.as_path()];
    write_tree(&here, &dirs, &files)?;
    write_tree(&there, &dirs, &files)?;
    for (p, t) in &config_files {
        run::write_file(&here.join(p), t)?;
    }
    let count_threads = config.threads.is_some() && tape.chance(50);
    let mut results = Vec::new();
    for (base, args) in [(&here, here_args), (&there, there_args)] {
        let mut invocation = Invocation::default();
        invocation.cwd = Some(base.join(&cwd));
        invocation.args = args.iter().map(Into::into).collect();
        let log = case.dir.join("threads.log");
        if count_threads {
            shim::instrument(&mut invocation, base, Some(&log), &[], None);
        }
        let (ran, report) = call(case, &invocation)?;
        let started = if count_threads { threads_started(&log) } else { 0 };
        let mut after = run::snapshot(base);
        for p in config_files.keys() {
            after.remove(&p.to_string_lossy().into_owned());
        }
        results.push((ran, shown(&report, base), after, report, started));
    }
    let there_result = results.pop().unwrap();
    let here_result = results.pop().unwrap();
    let how = format!("{}\non the command line: {}", here_result.0.describe(), there_result.0.describe());
    if there_result.0.code != Some(0) {
        return violation(format!("a valid project is rejected: {how}"));
    }
    if here_result.0.code != there_result.0.code || here_result.1 != there_result.1 {
        return violation(format!("messages or exit status differ: {how}"));
    }
    if here_result.2 != there_result.2 {
        let keys: Vec<&String> = here_result
            .2
            .keys()
            .chain(there_result.2.keys())
            .filter(|k| here_result.2.get(*k) != there_result.2.get(*k))
            .collect();
        let texts: Vec<String> = keys
            .iter()
            .take(1)
            .map(|k| {
                let t = |m: &BTreeMap<String, Vec<u8>>| m.get(*k).map(|v| String::from_utf8_lossy(v).into_owned());
                format!("{k}: {:?}\nall on the command line: {:?}", t(&here_result.2), t(&there_result.2))
            })
            .collect();
        return violation(format!("files differ: {keys:?}\n{}\n{how}", texts.join("")));
    }
    if here_result.4 != there_result.4 {
        return violation(format!("{} threads are started, not {}", here_result.4, there_result.4));
    }
    if !own {
        if let Err(e) = visible(&config, &root, &here_result.2, &here_result.3) {
            return violation(format!("{e}\n{how}"));
        }
    }
    case.label_if(named && use_config, "named config file");
    case.label_if(!named && use_config, "default config file");
    case.label_if(split.both > 0, "given twice");
    case.label_if(with_decoys, "schema decoys");
    case.label_if(with_decoy_config, "config decoys");
    case.label_if(root != cwd, "elsewhere than the root");
    case.label_if(count_threads, "threads counted");
    case.label(match schema_given {
        Given::Nowhere => "default schema",
        Given::CommandLine => "schema on the command line",
        Given::ConfigFile => "schema in the config file",
        Given::Both => "schema in both",
    });
    if split.in_config + split.both > 0 {
        case.nontrivial();
    }
    Ok(())
}

/// Config files that cannot be used
fn rejected(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let base = case.dir.join("here");
    let config = Config::default();
    let root = PathBuf::from("proj");
    let cwd = PathBuf::from(*tape.pick(&["", "work", "proj"]));
    let mut files = visible_documents(&config, &root);
    files.insert(root.join("schema.json"), VISIBLE_SCHEMA.as_bytes().to_vec());
    if tape.chance(50) {
        files.insert(root.join("q.graphql.d.ts"), b"// earlier\n".to_vec());
    }
    let named = tape.chance(60);
    let file = if named {
        PathBuf::from(*tape.pick(&["conf/c.json", "c.json", "proj/.qlcrc.json"]))
    } else {
        cwd.join(".qlcrc.json")
    };
    write_tree(&base, &[&cwd, &root], &files)?;
    mkdir(&base.join("conf"))?;
    let at = base.join(&file);
    let why;
    let mut unprivileged = false;
    match tape.below(if named { 12 } else { 9 }) {
        0 | 1 => {
            // Not JSON, or cut short, or followed by something
            let text = *tape.pick(&[
                "", " \n", "{", "{\"numThreads\": 2", "{\"numThreads\": 2,}", "{'numThreads': 2}", "{} x", "{}{}", "{numThreads: 2}",
                "// comment\n{}", "{\"useCustomScalars\": True}", "{\"useCustomScalars\" true}", "{\"rootDirImportPrefix\": \"@/}",
                "\u{0}", "{\"rootDirImportPrefix\": \"\\x\"}",
            ]);
            run::write_file(&at, text)?;
            why = format!("{text:?}");
        }
        2 => {
            let text = *tape.pick(&["3", "\"text\"", "true", "null", "1.5"]);
            run::write_file(&at, text)?;
            why = text.to_string();
        }
        3 => {
            run::write_file(&at, [b"{\"rootDirImportPrefix\": \"".as_slice(), &[0xff, 0xfe], b"\"}"].concat())?;
            why = "not UTF-8".into();
        }
        4 => {
            run::write_file(&at, "{}")?;
            set_mode(&at, 0o200)?;
            unprivileged = true;
            why = "not readable".into();
        }
        5..=8 => {
            // A value of the wrong type, among good ones
            let wrong: [(&str, Vec<Value>); 9] = [
                ("schemaFile", vec![json!(1), json!(true), json!(["schema.json"]), json!({})]),
                ("useCustomScalars", vec![json!("true"), json!(1), json!([]), json!({})]),
                ("disableReadonlyTypes", vec![json!("false"), json!(0), json!([true])]),
                ("customScalarPrefix", vec![json!(5), json!(false), json!(["x"])]),
                ("numThreads", vec![json!("4"), json!(-1), json!(1.5), json!(true), json!([4])]),
                ("showDeprecationWarnings", vec![json!("yes"), json!(1), json!({})]),
                ("rootDirImportPrefix", vec![json!(1), json!(true), json!(["@/"])]),
                ("globalTypesModuleName", vec![json!(1), json!(false), json!({})]),
                ("typedGraphqlDocumentnodeModuleName", vec![json!(1), json!(false), json!([])]),
            ];
            let (key, values) = tape.pick(&wrong);
            let mut m = Map::new();
            if tape.chance(50) {
                m.insert("disableReadonlyTypes".into(), json!(true));
            }
            if tape.chance(50) {
                m.insert("numThreads".into(), json!(2));
            }
            m.insert((*key).into(), tape.pick(values).clone());
            why = Value::Object(m).to_string();
            run::write_file(&at, &why)?;
        }
        9 => why = "missing".into(),
        10 => {
            mkdir(&at)?;
            why = "a directory".into();
        }
        _ => {
            std::os::unix::fs::symlink("nowhere.json", &at).map_err(|e| Stop::Inconclusive(e.to_string()))?;
            why = "a dangling link".into();
        }
    }
    if named && file != cwd.join(".qlcrc.json") && tape.chance(50) {
        // Not to be used instead
        run::write_file(&base.join(&cwd).join(".qlcrc.json"), "{}")?;
    }
    for d in ["", "proj", "proj/sub", "work", "conf"] {
        let d = base.join(d);
        if d.is_dir() {
            set_mode(&d, 0o777)?;
        }
    }
    for f in files.keys() {
        set_mode(&base.join(f), 0o666)?;
    }
    let mut invocation = Invocation::default();
    invocation.cwd = Some(base.join(&cwd));
    invocation.unprivileged = unprivileged;
    if named {
        let s = spell(tape, &base, &cwd, &file);
        invocation.args.push("-c".into());
        invocation.args.push(s.into());
    }
    if cwd != root || tape.chance(50) {
        invocation.args.push(base.join(&root).into());
    }
    case.note("config file", format!("{} {why}", if named { "named" } else { "default" }));
    let before = run::snapshot(&base);
    let (ran, report) = call(case, &invocation)?;
    let how = format!("config file {} ({why}): {}", file.display(), ran.describe());
    if ran.code != Some(1) || report.error_list().is_empty() {
        return violation(format!("no error: {how}"));
    }
    if let Err(e) = diag::consistent(&report, ran.code) {
        return violation(format!("{e}: {how}"));
    }
    if report.error_list().len() != 1 {
        return violation(format!("more than one error: {how}"));
    }
    if run::snapshot(&base) != before {
        return violation(format!("something was written: {how}"));
    }
    case.label("unusable config file");
    case.nontrivial();
    Ok(())
}

fn set_mode(p: &Path, mode: u32) -> Result<(), Stop> {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).map_err(|e| Stop::Inconclusive(e.to_string()))
}

fn p13(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    if tape.chance(20) {
        rejected(tape, case)
    } else {
        splits(tape, case)
    }
}

/// The number of threads is really used
fn thread_numbers(case: &mut Case<'_>) -> Outcome {
    let base = case.dir.join("here");
    let mut files = visible_documents(&Config::default(), Path::new("proj"));
    files.insert("proj/schema.json".into(), VISIBLE_SCHEMA.as_bytes().to_vec());
    write_tree(&base, &[], &files)?;
    let log = case.dir.join("threads.log");
    let mut count = |case: &mut Case<'_>, flag: Option<usize>, config: Option<usize>| -> Result<usize, Stop> {
        let file = base.join(".qlcrc.json");
        let _ = std::fs::remove_file(&file);
        if let Some(n) = config {
            run::write_file(&file, format!("{{\"numThreads\":{n}}}"))?;
        }
        let mut invocation = Invocation::default().arg("proj");
        if let Some(n) = flag {
            invocation = invocation.arg("--num-threads").arg(n.to_string());
        }
        invocation.cwd = Some(base.clone());
        shim::instrument(&mut invocation, &base, Some(&log), &[], None);
        let (ran, _) = call(case, &invocation)?;
        if ran.code != Some(0) {
            return violation(ran.describe());
        }
        Ok(threads_started(&log))
    };
    let one = count(case, Some(1), None)?;
    for n in [2usize, 3, 7, 8, 16, 40] {
        let by_flag = count(case, Some(n), None)?;
        let by_config = count(case, None, Some(n))?;
        let by_both = count(case, Some(n), Some(n + 1))?;
        if by_flag != one + n - 1 || by_config != by_flag || by_both != by_flag {
            return violation(format!(
                "one thread: {one} started; {n}: {by_flag} by flag, {by_config} by config, {by_both} by flag over config"
            ));
        }
    }
    Ok(())
}

/// The flag without a config key
fn no_color(case: &mut Case<'_>) -> Outcome {
    let base = case.dir.join("here");
    let mut files = visible_documents(&Config::default(), Path::new("proj"));
    files.insert("proj/schema.json".into(), VISIBLE_SCHEMA.as_bytes().to_vec());
    files.insert("proj/bad.graphql".into(), b"query Bad { nope }".to_vec());
    write_tree(&base, &[], &files)?;
    let mut texts = Vec::new();
    for args in [vec![], vec!["--no-color"]] {
        let mut invocation = Invocation::default().arg("--show-deprecation-warnings").arg("proj").env("CLICOLOR_FORCE", "1");
        invocation.args.extend(args.iter().map(|a| (*a).into()));
        invocation.cwd = Some(base.clone());
        case.stats.runs += 1;
        let ran = run::run(&invocation)?;
        expect_clean(&ran)?;
        texts.push(ran.out());
    }
    if texts[1].contains('\u{1b}') || !texts[1].contains("nope") {
        return violation(format!("--no-color: {:?}", texts[1]));
    }
    if !texts[0].contains('\u{1b}') {
        return violation(format!("forced colours: {:?}", texts[0]));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P13",
        rule: "every documented option given on the command line (in every notation), in the config file, in both with another value, or not at all; default or named config file; schema by default, flag, config file or both, relative or absolute, with decoys where a wrong resolution would look; reference: the same tree with everything on the command line and no config file; a fifth of the cases: unusable config files; non-trivial: an option in the config file, or an unusable one",
        quick_cases: 12_000,
        thorough_cases: 80_000,
        tape: (200, 1500),
        shrink_iters: 300,
        prepare: Some(shim::prepare),
        fixed: &[("numbers of threads", thread_numbers), ("forced colours", no_color)],
        assumptions: &["a scalar prefix on the command line is only generated with --use-custom-scalars there, as documented"],
        run: p13,
        ..Check::base()
    }]
}
