//! A local server that answers as it is told (node/server.js), and the package's scripts as copied
//! from the working tree.

use crate::engine::{inconclusive, Stop};
use crate::run::{self, Invocation, Ran};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

struct Server {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

static PACKAGE: OnceLock<PathBuf> = OnceLock::new();
static NODE: OnceLock<PathBuf> = OnceLock::new();

/// Copies the package, and what helps to run it, to where an unprivileged user can read it
pub fn prepare(scratch: &Path) -> Result<(), String> {
    let node = std::env::var("PATH")
        .unwrap_or_default()
        .split(':')
        .map(|d| Path::new(d).join("node"))
        .find(|p| p.is_file())
        .ok_or("node is missing")?;
    let _ = NODE.set(node);
    let to = scratch.join("package");
    copy_tree(&run::repo_dir().join("pkg/npm"), &to)?;
    let harness = crate::engine::verif_dir_of_harness().join("node");
    copy_file(&harness.join("stub.js"), &scratch.join("stub.js"))?;
    copy_file(&harness.join("certs/ca.pem"), &scratch.join("ca.pem"))?;
    let slow = scratch.join("slow.so");
    let source = crate::engine::verif_dir_of_harness().join("shim/slow.c");
    let out = Command::new("gcc")
        .args(["-O1", "-shared", "-fPIC", "-o"])
        .arg(&slow)
        .arg(&source)
        .arg("-ldl")
        .output()
        .map_err(|e| format!("gcc: {e}"))?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).into_owned());
    }
    {
        use std::os::unix::fs::PermissionsExt;
        let _ = std::fs::set_permissions(&slow, std::fs::Permissions::from_mode(0o755));
    }
    let _ = PACKAGE.set(to);
    Ok(())
}

fn copy_file(from: &Path, to: &Path) -> Result<(), String> {
    use std::os::unix::fs::PermissionsExt;
    std::fs::copy(from, to).map_err(|e| format!("copy {}: {e}", from.display()))?;
    let _ = std::fs::set_permissions(to, std::fs::Permissions::from_mode(0o644));
    Ok(())
}

pub fn copy_tree(from: &Path, to: &Path) -> Result<(), String> {
    std::fs::create_dir_all(to).map_err(|e| format!("{}: {e}", to.display()))?;
    let entries = std::fs::read_dir(from).map_err(|e| format!("{}: {e}", from.display()))?;
    for entry in entries.flatten() {
        let (a, b) = (entry.path(), to.join(entry.file_name()));
        let kind = entry.file_type().map_err(|e| e.to_string())?;
        if kind.is_dir() {
            if entry.file_name() != "node_modules" {
                copy_tree(&a, &b)?;
            }
        } else if kind.is_file() {
            copy_file(&a, &b)?;
        }
    }
    Ok(())
}

pub fn package() -> &'static Path {
    PACKAGE.get().expect("prepared")
}

pub fn scratch_file(name: &str) -> PathBuf {
    package().parent().unwrap().join(name)
}

/// Gives a directory and what is in it to the unprivileged user
pub fn give_away(path: &Path) {
    let _ = std::os::unix::fs::lchown(path, Some(65534), Some(65534));
    if path.is_dir() && !path.is_symlink() {
        if let Ok(entries) = std::fs::read_dir(path) {
            for entry in entries.flatten() {
                give_away(&entry.path());
            }
        }
    }
}

/// A run of node as the unprivileged user
pub fn node(cwd: &Path, args: Vec<std::ffi::OsString>) -> Invocation {
    let mut i = Invocation::default();
    i.binary = NODE.get().cloned();
    i.args = args;
    i.cwd = Some(cwd.to_path_buf());
    i.unprivileged = true;
    i.any_memory = true;
    i.limits = Some((30, 60));
    i.env
        .insert("NODE_EXTRA_CA_CERTS".into(), scratch_file("ca.pem").display().to_string());
    i
}

/// Makes it take as long to create any file
pub fn slow(i: &mut Invocation, ms: usize) {
    i.env.insert("LD_PRELOAD".into(), scratch_file("slow.so").display().to_string());
    i.env.insert("QLC_SLOW".into(), ms.to_string());
}

/// Leaves as many bytes for the files created
pub fn full(i: &mut Invocation, room: usize) {
    i.env.insert("LD_PRELOAD".into(), scratch_file("slow.so").display().to_string());
    i.env.insert("QLC_ROOM".into(), room.to_string());
}

pub fn run_node(invocation: &Invocation) -> Result<Ran, Stop> {
    let mut invocation = invocation.clone();
    invocation.limits = None;
    let ran = run::run(&invocation)?;
    if ran.timed_out() {
        return inconclusive(format!("killed: {}", ran.describe()));
    }
    Ok(ran)
}

fn start() -> Result<Server, String> {
    let mut child = Command::new(NODE.get().expect("prepared"))
        .arg(crate::engine::verif_dir_of_harness().join("node/server.js"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("node: {e}"))?;
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Ok(Server { child, stdin, stdout })
}

fn ask(request: &Value) -> Result<Value, Stop> {
    let line = format!("{request}\n");
    let mut trouble = String::new();
    for _ in 0..3 {
        let answer = SERVER.with(|s| -> Result<Value, String> {
            let mut s = s.borrow_mut();
            if s.is_none() {
                *s = Some(start()?);
            }
            let server = s.as_mut().unwrap();
            let answer = server
                .stdin
                .write_all(line.as_bytes())
                .and_then(|_| server.stdin.flush())
                .map_err(|e| format!("server: {e}"))
                .and_then(|_| {
                    let mut line = String::new();
                    server
                        .stdout
                        .read_line(&mut line)
                        .map_err(|e| format!("server: {e}"))?;
                    serde_json::from_str(&line).map_err(|e| format!("server: {e}: {line:?}"))
                });
            if answer.is_err() {
                *s = None;
            }
            answer
        });
        match answer {
            Ok(v) => return Ok(v),
            Err(e) => trouble = e,
        }
        if request["cmd"] == "log" {
            break;
        }
    }
    inconclusive(trouble)
}

#[derive(Debug, Clone)]
pub enum Step {
    Write(Vec<u8>),
    Wait(u64),
    Fin,
    Rst,
    Keep,
}

#[derive(Debug, Clone, Default)]
pub struct Route {
    pub host: String,
    pub path: String,
    pub cert: Option<&'static str>,
    /// `rst`, `fin` or `stall` while the connection is set up
    pub handshake: Option<&'static str>,
    pub steps: Vec<Step>,
}

#[derive(Debug, Clone, Default)]
pub struct Scenario {
    pub routes: Vec<Route>,
    pub cert: Option<&'static str>,
    /// `rst`, `fin`, or `plain` at once
    pub connect: Option<&'static str>,
}

#[derive(Debug, Clone)]
pub struct Request {
    pub tls: bool,
    pub sni: Option<String>,
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Request {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == name).map(|h| h.1.as_str())
    }
}

const DIGITS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn base64(data: &[u8]) -> String {
    let mut out = String::with_capacity(data.len() / 3 * 4 + 4);
    for chunk in data.chunks(3) {
        let n = u32::from(chunk[0]) << 16
            | u32::from(*chunk.get(1).unwrap_or(&0)) << 8
            | u32::from(*chunk.get(2).unwrap_or(&0));
        for k in 0..4 {
            if k <= chunk.len() {
                out.push(DIGITS[(n >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

fn unbase64(text: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut n, mut bits) = (0u32, 0);
    for b in text.bytes() {
        if let Some(d) = DIGITS.iter().position(|x| *x == b) {
            n = n << 6 | d as u32;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                out.push((n >> bits) as u8);
                n &= (1 << bits) - 1;
            }
        }
    }
    out
}

fn step_json(s: &Step) -> Value {
    match s {
        Step::Write(b) => json!({"w": base64(b)}),
        Step::Wait(ms) => json!({"d": ms}),
        Step::Fin => json!({"e": "fin"}),
        Step::Rst => json!({"e": "rst"}),
        Step::Keep => json!({"e": "keep"}),
    }
}

/// Ports of http and https
pub fn set(scenario: &Scenario) -> Result<(u16, u16), Stop> {
    let answer = ask(&json!({
        "cmd": "set", "cert": scenario.cert, "connect": scenario.connect,
        "routes": scenario.routes.iter().map(|r| json!({
            "host": r.host, "path": r.path, "cert": r.cert, "handshake": r.handshake,
            "steps": r.steps.iter().map(step_json).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    }))?;
    match (answer["http"].as_u64(), answer["https"].as_u64()) {
        (Some(a), Some(b)) => Ok((a as u16, b as u16)),
        _ => inconclusive(answer.to_string()),
    }
}

/// Requests since the scenario was set
pub fn log() -> Result<Vec<Request>, Stop> {
    let answer = ask(&json!({"cmd": "log"}))?;
    let mut out = Vec::new();
    for r in answer["requests"].as_array().into_iter().flatten() {
        let head = r["head"].as_str().unwrap_or("");
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        out.push(Request {
            tls: r["tls"] == json!(true),
            sni: r["sni"].as_str().map(|s| s.to_string()),
            method: first.next().unwrap_or("").to_string(),
            target: first.next().unwrap_or("").to_string(),
            headers: lines
                .filter_map(|l| l.split_once(':'))
                .map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string()))
                .collect(),
            body: unbase64(r["body"].as_str().unwrap_or("")),
        });
    }
    Ok(out)
}

/// SHA-256 in lower case
pub fn sha256(data: &[u8]) -> String {
    let mut primes = (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0));
    let first: Vec<u64> = primes.by_ref().take(64).collect();
    // Fractions of roots, by integer arithmetic
    let square = |p: u64| -> u32 {
        let n = (p as u128) << 64;
        let mut r = (n as f64).sqrt() as u128;
        while r * r > n {
            r -= 1;
        }
        while (r + 1) * (r + 1) <= n {
            r += 1;
        }
        r as u32
    };
    let cube = |p: u64| -> u32 {
        let n = (p as u128) << 96;
        let mut r = (n as f64).cbrt() as u128;
        while r * r * r > n {
            r -= 1;
        }
        while (r + 1) * (r + 1) * (r + 1) <= n {
            r += 1;
        }
        r as u32
    };
    let mut h: Vec<u32> = first[..8].iter().map(|p| square(*p)).collect();
    let k: Vec<u32> = first.iter().map(|p| cube(*p)).collect();
    let mut padded = data.to_vec();
    padded.push(0x80);
    while padded.len() % 64 != 56 {
        padded.push(0);
    }
    padded.extend((data.len() as u64 * 8).to_be_bytes());
    for block in padded.chunks(64) {
        let mut w: Vec<u32> = block
            .chunks(4)
            .map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]]))
            .collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v: Vec<u32> = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for (a, b) in h.iter_mut().zip(v) {
            *a = a.wrapping_add(b);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}

#[cfg(test)]
mod tests {
    #[test]
    fn digests() {
        assert_eq!(
            super::sha256(b"abc"),
            "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
        );
        for n in 0..9u8 {
            let v: Vec<u8> = (0..n).map(|x| x.wrapping_mul(77)).collect();
            assert_eq!(super::unbase64(&super::base64(&v)), v);
        }
    }
}
