//! The preloaded library that fails, cuts short, delays or ends file operations.

use crate::run::Invocation;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

static LIBRARY: OnceLock<PathBuf> = OnceLock::new();

pub fn prepare(scratch: &Path) -> Result<(), String> {
    let source = crate::engine::verif_dir_of_harness().join("shim/shim.c");
    let library = scratch.join("shim.so");
    let output = Command::new("gcc")
        .args(["-O1", "-w", "-shared", "-fPIC", "-o"])
        .arg(&library)
        .arg(&source)
        .arg("-ldl")
        .output()
        .map_err(|e| format!("gcc: {e}"))?;
    if !output.status.success() {
        return Err(format!("gcc: {}", String::from_utf8_lossy(&output.stderr)));
    }
    let _ = LIBRARY.set(library);
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Op {
    pub kind: String,
    pub n: usize,
    pub path: String,
}

#[derive(Debug, Clone)]
pub struct Fault {
    pub kind: String,
    /// 0 means all of them
    pub n: usize,
    pub path: String,
    pub action: &'static str,
}

impl Fault {
    pub fn is_hard(&self) -> bool {
        matches!(self.action, "eio" | "enospc" | "eacces" | "emfile")
    }
    pub fn is_kill(&self) -> bool {
        matches!(self.action, "kill" | "halfkill")
    }
    pub fn reached(&self, log: &[Op]) -> bool {
        log.iter()
            .any(|o| o.kind == self.kind && o.path == self.path && (self.n == 0 || o.n == self.n))
    }
    pub fn show(&self) -> String {
        format!("{} {} {} {}", self.kind, self.n, self.action, self.path)
    }
}

/// What can go wrong with an operation
pub fn actions(kind: &str) -> &'static [&'static str] {
    match kind {
        "open" => &["eio", "eacces", "emfile", "eintr", "kill"],
        "create" => &["eio", "enospc", "eacces", "emfile", "eintr", "kill"],
        "read" => &["eio", "eintr", "short", "kill"],
        "write" => &["eio", "enospc", "eintr", "short", "kill", "halfkill"],
        "opendir" => &["eio", "eacces", "emfile", "kill"],
        "readdir" => &["eio", "kill"],
        _ => &["eio", "kill"],
    }
}

pub fn instrument(invocation: &mut Invocation, base: &Path, log: Option<&Path>, plan: &[Fault], delay: Option<u32>) {
    let library = LIBRARY.get().expect("prepared");
    let env = &mut invocation.env;
    env.insert("LD_PRELOAD".into(), library.to_string_lossy().into_owned());
    env.insert("QLC_IO_BASE".into(), base.to_string_lossy().into_owned());
    if let Some(log) = log {
        let _ = std::fs::remove_file(log);
        env.insert("QLC_IO_LOG".into(), log.to_string_lossy().into_owned());
    }
    if !plan.is_empty() {
        let lines: Vec<String> = plan.iter().map(|f| f.show()).collect();
        env.insert("QLC_IO_PLAN".into(), lines.join("\n"));
    }
    if let Some(seed) = delay {
        env.insert("QLC_IO_DELAY".into(), seed.to_string());
    }
}

pub fn read_log(log: &Path) -> Vec<Op> {
    let text = std::fs::read(log).unwrap_or_default();
    String::from_utf8_lossy(&text)
        .lines()
        .filter_map(|l| {
            let mut parts = l.splitn(3, ' ');
            Some(Op {
                kind: parts.next()?.to_string(),
                n: parts.next()?.parse().ok()?,
                path: parts.next()?.to_string(),
            })
        })
        .collect()
}
