//! The TypeScript compiler, kept running in a process per thread.

use crate::common::Project;
use crate::engine::{inconclusive, Stop};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const TYPESCRIPT: &str = "/opt/veriftools/node/node_modules/typescript";

#[derive(Debug, Clone)]
pub struct TsDiag {
    pub file: String,
    /// From 0
    pub line: i64,
    pub code: i64,
    pub text: String,
}

struct Server {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

pub fn prepare(_: &Path) -> Result<(), String> {
    if !Path::new(TYPESCRIPT).is_dir() {
        return Err(format!("{TYPESCRIPT} is missing"));
    }
    Ok(())
}

fn start() -> Result<Server, String> {
    let mut command = Command::new("node");
    command
        .arg("--max-old-space-size=1500")
        .arg(crate::engine::verif_dir_of_harness().join("node/typecheck.js"))
        .env("QLC_TYPESCRIPT", TYPESCRIPT)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    let mut child = command.spawn().map_err(|e| format!("node: {e}"))?;
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Ok(Server { child, stdin, stdout })
}

fn ask(server: &mut Server, request: &str) -> Result<Value, String> {
    server
        .stdin
        .write_all(request.as_bytes())
        .and_then(|_| server.stdin.flush())
        .map_err(|e| format!("node: {e}"))?;
    let mut line = String::new();
    server.stdout.read_line(&mut line).map_err(|e| format!("node: {e}"))?;
    serde_json::from_str(&line).map_err(|e| format!("node: {e}: {line:?}"))
}

/// A program: files by absolute path, and where modules are found
#[derive(Debug, Clone, Default)]
pub struct Program {
    pub files: BTreeMap<String, String>,
    pub modules: BTreeMap<String, String>,
}

pub const NODES: &str = "/nodes/typed-documentnode.d.ts";
const GRAPHQL: &str = "/nodes/graphql.d.ts";

impl Program {
    /// With the shipped module under the name that is configured
    pub fn new(project: &Project) -> Result<Program, Stop> {
        let mut p = Program::default();
        let shipped = crate::run::repo_dir().join("pkg/npm/lib/typed-documentnode.d.ts");
        match std::fs::read_to_string(&shipped) {
            Ok(t) => p.files.insert(NODES.into(), t),
            Err(e) => return inconclusive(format!("{}: {e}", shipped.display())),
        };
        p.files.insert(
            GRAPHQL.into(),
            "export interface DocumentNode { readonly kind: \"Document\"; readonly definitions: ReadonlyArray<unknown>; readonly loc?: object }\n".into(),
        );
        p.modules.insert("graphql".into(), GRAPHQL.into());
        p.modules.insert(project.config.node_module_name(), NODES.into());
        Ok(p)
    }

    pub fn generated(&mut self, project: &Project, files: &BTreeMap<String, String>) {
        for (k, v) in files {
            self.files.insert(format!("/root/{k}"), v.clone());
        }
        let globals = format!("/root/{}", project.globals_path());
        if self.files.contains_key(&globals) {
            self.modules.insert(project.config.globals_module(), globals);
        }
        let mut ambient = String::new();
        for s in project.scalar_names() {
            ambient.push_str(&format!("declare type {s} = {{ readonly scalar: \"{s}\" }};\n"));
        }
        self.files.insert("/ambient.d.ts".into(), ambient);
    }

    pub fn check(&self) -> Result<Vec<TsDiag>, Stop> {
        let mut request = json!({
            "files": self.files, "modules": self.modules, "keep": [NODES, GRAPHQL],
        })
        .to_string();
        request.push('\n');
        let mut trouble = String::new();
        for _ in 0..3 {
            let answer = SERVER.with(|s| {
                let mut s = s.borrow_mut();
                if s.is_none() {
                    *s = Some(start()?);
                }
                let answer = ask(s.as_mut().unwrap(), &request);
                if answer.is_err() {
                    *s = None;
                }
                answer
            });
            match answer {
                Ok(v) if v["diags"].is_array() => {
                    return Ok(v["diags"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|d| TsDiag {
                            file: d["file"].as_str().unwrap_or("").to_string(),
                            line: d["line"].as_i64().unwrap_or(-1),
                            code: d["code"].as_i64().unwrap_or(0),
                            text: d["text"].as_str().unwrap_or("").to_string(),
                        })
                        .collect());
                }
                Ok(v) => trouble = v.to_string(),
                Err(e) => trouble = e,
            }
        }
        inconclusive(trouble)
    }
}
