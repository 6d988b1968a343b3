//! Runs the generated cases of a check in parallel, shrinks failures, writes evidence and replays.

use crate::tape::{Tape, TapeStrategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Why a case did not pass
#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is violated
    Violation(String),
    /// The check cannot tell (environment trouble, watchdog)
    Inconclusive(String),
}

pub type Outcome = Result<(), Stop>;

pub fn violation<T>(text: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Violation(text.into()))
}

pub fn inconclusive<T>(text: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Inconclusive(text.into()))
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub runs: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.runs += other.runs;
        self.nontrivial.extend(other.nontrivial);
        for (k, v) in other.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in other.excluded {
            *self.excluded.entry(k).or_default() += v;
        }
        self.samples.extend(other.samples);
    }
}

/// What a case may use and report to
pub struct Case<'a> {
    pub dir: PathBuf,
    pub shard: usize,
    pub quiet: bool,
    /// Text of the case, for samples and replay files
    pub notes: Vec<(String, String)>,
    pub stats: &'a mut Stats,
    nontrivial: bool,
    excluded: bool,
}

impl Case<'_> {
    pub fn label(&mut self, name: &str) {
        if !self.quiet {
            *self.stats.labels.entry(name.to_string()).or_default() += 1;
        }
    }
    pub fn label_if(&mut self, condition: bool, name: &str) {
        if condition {
            self.label(name);
        }
    }
    pub fn exclude(&mut self, reason: &str) {
        self.excluded = true;
        if !self.quiet {
            *self.stats.excluded.entry(reason.to_string()).or_default() += 1;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, name: impl Into<String>, text: impl Into<String>) {
        self.notes.push((name.into(), text.into()));
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub quick_cases: u32,
    pub thorough_cases: u32,
    pub tape: (usize, usize),
    pub shrink_iters: u32,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Tape<'_>, &mut Case<'_>) -> Outcome,
    /// Fixed inputs, run before the generated ones; name and body
    pub fixed: &'static [(&'static str, fn(&mut Case<'_>) -> Outcome)],
    /// Known findings: signature (as listed in known-findings.txt) and a reproduction that returns
    /// Ok(true) while the finding is still there
    pub known: &'static [(&'static str, fn(&mut Case<'_>) -> Result<bool, Stop>)],
    /// Needs the compiler, the one with schedule points, or a further set-up
    pub compiler: bool,
    pub hooked: bool,
    pub prepare: Option<fn(&Path) -> Result<(), String>>,
}

impl Check {
    pub fn base() -> Check {
        fn none(_: &mut Tape<'_>, _: &mut Case<'_>) -> Outcome {
            Ok(())
        }
        Check {
            id: "",
            rule: "",
            level: "exploration",
            quick_cases: 1000,
            thorough_cases: 20_000,
            tape: (10, 400),
            shrink_iters: 600,
            assumptions: &[],
            run: none,
            fixed: &[],
            known: &[],
            compiler: true,
            hooked: false,
            prepare: None,
        }
    }
}

/// Builds what the check needs, then runs the body with a scratch directory
pub fn with_scratch(check: &Check, body: impl FnOnce(&Scratch) -> i32) -> i32 {
    let scratch = Scratch::new();
    if check.compiler {
        if let Err(e) = crate::run::prepare(&scratch.0, check.hooked) {
            eprintln!("{e}");
            return 2;
        }
    }
    if let Some(prepare) = check.prepare {
        if let Err(e) = prepare(&scratch.0) {
            eprintln!("{e}");
            return 2;
        }
    }
    body(&scratch)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("QLC_VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Where the sources of this harness are
pub fn verif_dir_of_harness() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR"))
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map(|v| v as u64)
        .unwrap_or(1)
}

fn hash_of(text: &str) -> u64 {
    let mut h = DefaultHasher::new();
    text.hash(&mut h);
    h.finish()
}

fn rng_for(id: &str, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed().to_le_bytes());
    bytes[8..16].copy_from_slice(&(shard as u64).to_le_bytes());
    for (i, b) in id.bytes().enumerate().take(16) {
        bytes[16 + i] = b;
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let bases = ["/dev/shm", "/tmp"];
        for base in bases {
            let dir = Path::new(base).join(format!("qlcv-{}", std::process::id()));
            if std::fs::create_dir_all(&dir).is_ok() {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755));
                return Scratch(dir);
            }
        }
        panic!("no scratch directory");
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn wipe(dir: &Path) {
    if let Ok(entries) = std::fs::read_dir(dir) {
        for entry in entries.flatten() {
            let p = entry.path();
            let is_dir = entry.file_type().map(|t| t.is_dir()).unwrap_or(false);
            if is_dir {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
                wipe(&p);
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

struct Found {
    tape: Option<Vec<u32>>,
    fixed: Option<String>,
    message: String,
    notes: Vec<(String, String)>,
}

fn new_case<'a>(dir: &Path, shard: usize, stats: &'a mut Stats, quiet: bool) -> Case<'a> {
    let _ = std::fs::create_dir_all(dir);
    wipe(dir);
    Case {
        dir: dir.to_path_buf(),
        shard,
        quiet,
        notes: Vec::new(),
        stats,
        nontrivial: false,
        excluded: false,
    }
}

fn write_replay(id: &str, found: &Found) -> PathBuf {
    let base = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&base);
    let mut n = 0;
    let path = loop {
        let p = base.join(format!("{id}-{}-{n}.json", seed()));
        if !p.exists() {
            break p;
        }
        n += 1;
    };
    let notes: serde_json::Map<String, Value> = found
        .notes
        .iter()
        .map(|(k, v)| (k.clone(), json!(v)))
        .collect();
    let body = json!({
        "property": id, "seed": seed(), "message": found.message,
        "tape": found.tape, "fixed": found.fixed, "case": notes,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

pub fn replay(check: &Check, body: &Value, scratch: &Scratch) -> i32 {
    let dir = scratch.0.join("replay");
    let mut stats = Stats::default();
    let mut case = new_case(&dir, 0, &mut stats, true);
    let result = if let Some(name) = body["fixed"].as_str() {
        match check.fixed.iter().find(|f| f.0 == name) {
            Some(f) => (f.1)(&mut case),
            None => {
                eprintln!("no such fixed case {name}");
                return 2;
            }
        }
    } else {
        let data: Vec<u32> = body["tape"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        (check.run)(&mut Tape::new(&data), &mut case)
    };
    for (k, v) in &case.notes {
        println!("--- {k}\n{v}");
    }
    match result {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(Stop::Violation(m)) => {
            println!("{m}\nVIOLATION property={}", check.id);
            1
        }
        Err(Stop::Inconclusive(m)) => {
            println!("inconclusive: {m}");
            2
        }
    }
}

pub fn run_check(check: &Check, scratch: &Scratch) -> i32 {
    let started = Instant::now();
    let tier = tier();
    let cases = std::env::var("QLC_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" {
            check.thorough_cases
        } else {
            check.quick_cases
        });
    let shards = 8usize;
    // On a machine much slower than expected fewer cases are better than no answer in time
    let until = (tier != "thorough").then(|| started + Duration::from_secs(600));
    let mut total = Stats::default();
    let mut found: Option<Found> = None;
    let mut trouble: Vec<String> = Vec::new();
    let mut known_lines = Vec::new();
    let listed = listed_findings(check.id);

    // Known findings: reported as long as they reproduce
    for (signature, reproduce) in check.known {
        let mut case = new_case(&scratch.0.join("known"), 0, &mut total, true);
        case.stats.evaluations += 1;
        match reproduce(&mut case) {
            Ok(true) if listed.iter().any(|l| l.contains(signature)) => {
                known_lines.push(format!("KNOWN-FINDING: property={} {signature}", check.id));
            }
            Ok(true) => {
                found.get_or_insert(Found {
                    tape: None,
                    fixed: None,
                    message: format!("{signature} (not listed)"),
                    notes: case.notes,
                });
            }
            Ok(false) => {}
            Err(Stop::Violation(message)) => {
                found.get_or_insert(Found {
                    tape: None,
                    fixed: None,
                    message,
                    notes: case.notes,
                });
            }
            Err(Stop::Inconclusive(m)) => trouble.push(m),
        }
    }
    // Fixed cases
    for (name, body) in check.fixed {
        let mut case = new_case(&scratch.0.join("fixed"), 0, &mut total, false);
        case.stats.evaluations += 1;
        match body(&mut case) {
            Ok(()) => {}
            Err(Stop::Violation(message)) => {
                let notes = std::mem::take(&mut case.notes);
                found.get_or_insert(Found {
                    tape: None,
                    fixed: Some(name.to_string()),
                    message: format!("fixed case {name}: {message}"),
                    notes,
                });
            }
            Err(Stop::Inconclusive(m)) => trouble.push(m),
        }
    }

    let stop = AtomicBool::new(found.is_some());
    let results: Mutex<Vec<(usize, Stats, Option<Found>, Vec<String>)>> = Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for shard in 0..shards {
            let (stop, results, scratch) = (&stop, &results, &scratch);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let dir = scratch.0.join(format!("s{shard}"));
                    let n = cases / shards as u32 + u32::from((shard as u32) < cases % shards as u32);
                    let stats = RefCell::new(Stats::default());
                    let trouble = RefCell::new(Vec::new());
                    let failing = RefCell::new(false);
                    let config = Config {
                        cases: n,
                        max_shrink_iters: check.shrink_iters,
                        max_shrink_time: 100_000,
                        max_global_rejects: 1_000_000,
                        failure_persistence: None,
                        source_file: None,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(config, rng_for(check.id, shard));
                    let strategy = TapeStrategy {
                        min_len: check.tape.0,
                        max_len: check.tape.1,
                    };
                    let outcome = if n == 0 {
                        Ok(())
                    } else {
                        runner.run(&strategy, |data| {
                            let shrinking = *failing.borrow();
                            if !shrinking
                                && (stop.load(Ordering::SeqCst)
                                    || !trouble.borrow().is_empty()
                                    || until.is_some_and(|until| Instant::now() > until))
                            {
                                return Ok(());
                            }
                            let mut stats = stats.borrow_mut();
                            let mut case = new_case(&dir, shard, &mut stats, shrinking);
                            let result = (check.run)(&mut Tape::new(&data), &mut case);
                            let notes = std::mem::take(&mut case.notes);
                            let (nontrivial, excluded) = (case.nontrivial, case.excluded);
                            if !shrinking {
                                stats.evaluations += 1;
                                if nontrivial && !excluded {
                                    let text: String = notes
                                        .iter()
                                        .map(|(k, v)| format!("{k}\0{v}\0"))
                                        .collect();
                                    if stats.nontrivial.insert(hash_of(&text))
                                        && stats.samples.len() < 2
                                        && text.len() < 6000
                                    {
                                        let m: serde_json::Map<String, Value> = notes
                                            .iter()
                                            .map(|(k, v)| (k.clone(), json!(v)))
                                            .collect();
                                        stats.samples.push(Value::Object(m));
                                    }
                                }
                            }
                            match result {
                                Ok(()) => Ok(()),
                                Err(Stop::Violation(message)) => {
                                    *failing.borrow_mut() = true;
                                    Err(TestCaseError::fail(message))
                                }
                                Err(Stop::Inconclusive(m)) => {
                                    if !shrinking {
                                        trouble.borrow_mut().push(m);
                                    }
                                    Ok(())
                                }
                            }
                        })
                    };
                    let found = match outcome {
                        Ok(()) => None,
                        Err(TestError::Fail(reason, data)) => {
                            stop.store(true, Ordering::SeqCst);
                            let mut scrap = Stats::default();
                            let mut case = new_case(&dir, shard, &mut scrap, true);
                            let again = (check.run)(&mut Tape::new(&data), &mut case);
                            let message = match again {
                                Err(Stop::Violation(m)) => m,
                                _ => format!("{reason} (did not fail again on replay)"),
                            };
                            Some(Found {
                                tape: Some(data),
                                fixed: None,
                                message,
                                notes: std::mem::take(&mut case.notes),
                            })
                        }
                        Err(TestError::Abort(reason)) => {
                            trouble.borrow_mut().push(format!("aborted: {reason}"));
                            None
                        }
                    };
                    results.lock().unwrap().push((
                        shard,
                        stats.into_inner(),
                        found,
                        trouble.into_inner(),
                    ));
                })
                .expect("thread");
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    for (_, stats, shard_found, shard_trouble) in results {
        total.merge(stats);
        if found.is_none() {
            found = shard_found;
        }
        trouble.extend(shard_trouble);
    }
    total.samples.truncate(4);

    let violations = usize::from(found.is_some());
    let evidence = json!({
        "property": check.id,
        "tier": tier,
        "seed": seed(),
        "level": check.level,
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": check.rule,
            "compiler_runs": total.runs,
            "longest_run_cpu_s": crate::run::longest(),
            "classes": total.labels,
            "excluded": total.excluded,
            "samples": total.samples,
            "known_findings": known_lines,
            "inconclusive": trouble.len(),
        },
        "assumptions": check.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let evidence_dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evidence_dir);
    if let Err(e) = std::fs::write(
        evidence_dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for line in &known_lines {
        println!("{line}");
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} compiler runs, {:.1} s",
        check.id,
        tier,
        total.evaluations,
        total.nontrivial.len(),
        total.runs,
        started.elapsed().as_secs_f64()
    );
    if let Some(found) = found {
        let path = write_replay(check.id, &found);
        println!("{}", found.message);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    if let Some(m) = trouble.first() {
        println!("inconclusive: {m}");
        return 2;
    }
    0
}

fn listed_findings(id: &str) -> Vec<String> {
    std::fs::read_to_string(verif_dir().join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("finding:") && l.contains(&format!("property={id} ")))
        .map(|l| l.to_string())
        .collect()
}
