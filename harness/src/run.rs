//! Builds the compiler from the working tree and runs it in scratch directories.

use crate::engine::{inconclusive, verif_dir, violation, Stop};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::OnceLock;

pub fn repo_dir() -> PathBuf {
    std::env::var_os("QLC_REPO")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/repo"))
}

fn build(target: &str, rustflags: Option<&str>) -> Result<PathBuf, String> {
    let target_dir = std::env::var_os("QLC_TARGET")
        .map(PathBuf::from)
        .unwrap_or_else(|| verif_dir().join("target"))
        .join(target);
    let mut command = Command::new("cargo");
    command
        .args(["build", "--offline", "--locked", "--quiet", "--bin", "qlc", "--manifest-path"])
        .arg(repo_dir().join("Cargo.toml"))
        .arg("--target-dir")
        .arg(&target_dir)
        .current_dir("/")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR");
    if let Some(flags) = rustflags {
        command.env("RUSTFLAGS", flags);
    }
    let output = command.output().map_err(|e| format!("cargo: {e}"))?;
    if !output.status.success() {
        return Err(format!(
            "the compiler does not build: {}",
            String::from_utf8_lossy(&output.stderr)
        ));
    }
    Ok(target_dir.join("debug/qlc"))
}

static BINARY: OnceLock<PathBuf> = OnceLock::new();
static HOOKED: OnceLock<Option<PathBuf>> = OnceLock::new();

fn copy_to(from: &Path, to: &Path) -> Result<(), String> {
    std::fs::copy(from, to).map_err(|e| format!("copy {}: {e}", from.display()))?;
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(to, std::fs::Permissions::from_mode(0o755));
    Ok(())
}

/// Builds the plain binary, and the one with schedule points if wanted
pub fn prepare(scratch: &Path, hooked: bool) -> Result<(), String> {
    let built = build("qlc", None)?;
    let bin = scratch.join("qlc-bin");
    copy_to(&built, &bin)?;
    let _ = BINARY.set(bin);
    if hooked {
        let hooked = match build("qlc-hooked", Some("--cfg qlc_verif")) {
            Ok(built) => {
                let bin = scratch.join("qlc-hooked-bin");
                copy_to(&built, &bin)?;
                Some(bin)
            }
            Err(e) => {
                eprintln!("hooked build failed, going on without: {e}");
                None
            }
        };
        let _ = HOOKED.set(hooked);
    }
    Ok(())
}

pub fn binary() -> &'static Path {
    BINARY.get().expect("prepared")
}

/// Not available where schedules turn out not to be followed (workers that wait for each other in
/// places without schedule points): every run would then take as long as the hook's patience.
pub fn hooked_binary() -> Option<&'static Path> {
    if SCHEDULES_LOST.load(Ordering::Relaxed) >= 40 {
        return None;
    }
    HOOKED.get().and_then(|o| o.as_deref())
}

static SCHEDULES_LOST: AtomicU64 = AtomicU64::new(0);

#[derive(Debug, Clone)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Ran {
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn describe(&self) -> String {
        format!(
            "exit {:?} signal {:?}\nstdout:\n{}\nstderr:\n{}",
            self.code,
            self.signal,
            self.out(),
            self.err()
        )
    }
    pub fn out_of_time(&self) -> bool {
        matches!(self.signal, Some(libc::SIGALRM) | Some(libc::SIGXCPU))
    }
    pub fn timed_out(&self) -> bool {
        matches!(self.signal, Some(libc::SIGALRM) | Some(libc::SIGXCPU) | Some(libc::SIGKILL))
    }
}

#[derive(Default, Clone)]
pub struct Invocation {
    pub binary: Option<PathBuf>,
    pub cwd: Option<PathBuf>,
    pub args: Vec<OsString>,
    pub env: BTreeMap<String, String>,
    /// Run as nobody
    pub unprivileged: bool,
    /// Seconds of CPU time and of wall clock time before the run is given up
    pub limits: Option<(u64, u32)>,
    pub no_file_limit: Option<u64>,
    /// Address space is not limited
    pub any_memory: bool,
}

impl Invocation {
    pub fn arg(mut self, a: impl Into<OsString>) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn env(mut self, k: &str, v: impl Into<String>) -> Self {
        self.env.insert(k.to_string(), v.into());
        self
    }
}

/// Limits for runs that set none of their own: seconds of CPU time and of wall clock time. Runs take
/// well below a second, and one that does not end within the first limits is tried again.
const PATIENCE: [(u64, u32); 2] = [(20, 60), (60, 150)];

static SEEN_HANGING: AtomicBool = AtomicBool::new(false);
static LONGEST_MS: AtomicU64 = AtomicU64::new(0);

/// Most CPU time used by any run so far, in seconds
pub fn longest() -> f64 {
    LONGEST_MS.load(Ordering::Relaxed) as f64 / 1000.0
}

/// A run that does not end is a violation of whatever is being checked
pub fn run(invocation: &Invocation) -> Result<Ran, Stop> {
    if invocation.limits.is_some() {
        return run_within(invocation);
    }
    let mut invocation = invocation.clone();
    for limits in PATIENCE {
        invocation.limits = Some(limits);
        let ran = run_within(&invocation)?;
        if !ran.out_of_time() {
            return Ok(ran);
        }
        // Shrinking would take too long with all patience
        if SEEN_HANGING.load(Ordering::Relaxed) || limits == PATIENCE[PATIENCE.len() - 1] {
            SEEN_HANGING.store(true, Ordering::Relaxed);
            return violation(format!(
                "the run does not end, not within {} s of CPU time and {} s: {}",
                limits.0,
                limits.1,
                ran.describe()
            ));
        }
    }
    unreachable!()
}

fn run_within(invocation: &Invocation) -> Result<Ran, Stop> {
    let mut last = String::new();
    for attempt in 0..5 {
        match run_once(invocation) {
            Ok(r) => return Ok(r),
            Err(e) => {
                last = e;
                std::thread::sleep(std::time::Duration::from_millis(200 * (attempt + 1)));
            }
        }
    }
    inconclusive(format!("cannot run the compiler: {last}"))
}

fn run_once(invocation: &Invocation) -> Result<Ran, String> {
    let bin = invocation.binary.as_deref().unwrap_or_else(|| binary());
    let mut command = Command::new(bin);
    command
        .args(&invocation.args)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", "/nonexistent")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for (k, v) in &invocation.env {
        command.env(k, v);
    }
    if let Some(cwd) = &invocation.cwd {
        command.current_dir(cwd);
    }
    let unprivileged = invocation.unprivileged;
    let (cpu, wall) = invocation.limits.unwrap_or((60, 240));
    let nofile = invocation.no_file_limit;
    let any_memory = invocation.any_memory;
    unsafe {
        command.pre_exec(move || {
            let limit = libc::rlimit {
                rlim_cur: cpu,
                rlim_max: cpu + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            let core = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit {
                rlim_cur: 6 << 30,
                rlim_max: 6 << 30,
            };
            if !any_memory {
                libc::setrlimit(libc::RLIMIT_AS, &mem);
            }
            if let Some(n) = nofile {
                let l = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            libc::alarm(wall);
            if unprivileged
                && (libc::setgroups(0, std::ptr::null()) != 0
                    || libc::setgid(65534) != 0
                    || libc::setuid(65534) != 0)
            {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let started = std::time::Instant::now();
    let mut child = command.spawn().map_err(|e| format!("spawn: {e}"))?;
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let err_thread = std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            let mut v = Vec::new();
            let _ = stderr.read_to_end(&mut v);
            v
        })
        .map_err(|e| format!("thread: {e}"))?;
    let mut out = Vec::new();
    let _ = stdout.read_to_end(&mut out);
    let err = err_thread.join().unwrap_or_default();
    let mut status = 0;
    let mut usage: libc::rusage = unsafe { std::mem::zeroed() };
    let pid = child.id() as libc::pid_t;
    while unsafe { libc::wait4(pid, &mut status, 0, &mut usage) } != pid {
        let e = std::io::Error::last_os_error();
        if e.kind() != std::io::ErrorKind::Interrupted {
            return Err(format!("wait: {e}"));
        }
    }
    if invocation.env.contains_key("QLC_SCHED_SEED") && started.elapsed().as_millis() > 4900 {
        SCHEDULES_LOST.fetch_add(1, Ordering::Relaxed);
    }
    let ms = |t: libc::timeval| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000;
    LONGEST_MS.fetch_max(ms(usage.ru_utime) + ms(usage.ru_stime), Ordering::Relaxed);
    let status = std::process::ExitStatus::from_raw(status);
    Ok(Ran {
        code: status.code(),
        signal: status.signal(),
        stdout: out,
        stderr: err,
    })
}

/// A finished run that did not crash; a crash or panic is a violation of whatever is being checked,
/// one that was killed is inconclusive.
pub fn expect_clean(ran: &Ran) -> Result<(), Stop> {
    if ran.timed_out() {
        return inconclusive(format!("killed: {}", ran.describe()));
    }
    if !matches!(ran.code, Some(0) | Some(1)) {
        return violation(format!("the compiler crashed: {}", ran.describe()));
    }
    Ok(())
}

/// Relative path to contents of all regular files below a directory; symlinks and directories are
/// listed with a marker.
pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(entries) = std::fs::read_dir(dir) else {
            return;
        };
        for entry in entries.flatten() {
            let path = entry.path();
            let rel = path.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let Ok(t) = entry.file_type() else { continue };
            if t.is_dir() {
                out.insert(format!("{rel}/"), Vec::new());
                walk(base, &path, out);
            } else if t.is_symlink() {
                let target = std::fs::read_link(&path).unwrap_or_default();
                out.insert(format!("{rel}@"), target.to_string_lossy().into_owned().into_bytes());
            } else if !t.is_file() {
                out.insert(format!("{rel}|"), Vec::new());
            } else {
                out.insert(rel, std::fs::read(&path).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

/// Only what the compiler generated, by name: `*.graphql.d.ts` and the given globals file
pub fn outputs(dir: &Path, globals: &str) -> BTreeMap<String, String> {
    snapshot(dir)
        .into_iter()
        .filter(|(k, _)| k.ends_with(".graphql.d.ts") || k == globals)
        .map(|(k, v)| (k, String::from_utf8_lossy(&v).into_owned()))
        .collect()
}

pub fn write_file(path: &Path, contents: impl AsRef<[u8]>) -> Result<(), Stop> {
    if let Some(parent) = path.parent() {
        if let Err(e) = std::fs::create_dir_all(parent) {
            return inconclusive(format!("mkdir {}: {e}", parent.display()));
        }
    }
    match std::fs::write(path, contents) {
        Ok(()) => Ok(()),
        Err(e) => inconclusive(format!("write {}: {e}", path.display())),
    }
}
