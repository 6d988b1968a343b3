//! P23: the release scripts, with stand-ins for the programs that publish; what they would have
//! published is looked at, and installed.

use super::network::{junk, respond, shown, Framing, PLATFORMS};
use crate::common::*;
use crate::engine::{inconclusive, violation, Case, Check, Outcome, Stop};
use crate::net::{self, Route, Scenario, Step};
use crate::run::{self, Invocation, Ran};
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

const HOST: &str = "x86_64-unknown-linux-musl";

fn prepare(scratch: &Path) -> Result<(), String> {
    net::prepare(scratch)?;
    net::copy_tree(&run::repo_dir().join(".circleci"), &scratch.join("circleci"))
}

fn executable(path: &Path, text: impl AsRef<[u8]>) -> Result<(), Stop> {
    run::write_file(path, text)?;
    let _ = std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o755));
    Ok(())
}

fn version(tape: &mut Tape<'_>) -> String {
    let number = |tape: &mut Tape<'_>| match tape.below(4) {
        0 => 0,
        1 => tape.below(10),
        2 => tape.below(30),
        _ => tape.below(2000),
    };
    let mut v = format!("{}.{}.{}", number(tape), number(tape), number(tape));
    match tape.below(8) {
        0 | 1 => v.push_str(&format!("-alpha.{}", number(tape))),
        2 | 3 => v.push_str(&format!("-beta.{}", number(tape))),
        4 => v.push_str(*tape.pick(&["-rc.1", "-alpha", "-beta", "-next.20240101"])),
        _ => {}
    }
    v
}

struct Stage {
    dir: PathBuf,
    bin: PathBuf,
    log: PathBuf,
    env: BTreeMap<String, String>,
}

impl Stage {
    fn script(&self, case: &mut Case<'_>, name: &str) -> Result<Ran, Stop> {
        let mut i = Invocation::default();
        i.binary = Some("/bin/bash".into());
        i.args = vec![self.dir.join(".circleci/bin").join(name).into()];
        i.cwd = Some(self.dir.clone());
        i.unprivileged = true;
        i.env = self.env.clone();
        case.stats.runs += 1;
        let ran = run::run(&i)?;
        if ran.timed_out() {
            return inconclusive(format!("killed: {}", ran.describe()));
        }
        Ok(ran)
    }
    /// Arguments of the calls of a stand-in, or none if it was not called
    fn calls(&self, name: &str) -> Vec<Vec<String>> {
        let text = std::fs::read(self.log.join(name)).unwrap_or_default();
        String::from_utf8_lossy(&text)
            .split_terminator("\u{1}\n")
            .map(|call| call.split_terminator('\0').map(|s| s.to_string()).collect())
            .collect()
    }
}

fn after<'a>(args: &'a [String], flag: &str) -> Option<&'a str> {
    args.iter().position(|a| a == flag).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn p23(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let v = version(tape);
    let dir = case.dir.join("qlc");
    let scratch = net::package().parent().unwrap().to_path_buf();
    net::copy_tree(&scratch.join("circleci"), &dir.join(".circleci")).map_err(Stop::Inconclusive)?;
    net::copy_tree(net::package(), &dir.join("pkg/npm")).map_err(Stop::Inconclusive)?;
    if let Ok(entries) = std::fs::read_dir(dir.join(".circleci/bin")) {
        for e in entries.flatten() {
            let _ = std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(0o755));
        }
    }
    let stage = Stage {
        bin: case.dir.join("bin"),
        log: case.dir.join("log"),
        env: [
            ("CIRCLE_WORKING_DIRECTORY", dir.display().to_string()),
            ("CIRCLE_SHA1", "0123456789abcdef0123456789abcdef01234567".into()),
            ("GITHUB_TOKEN", "secret".into()),
            ("PATH", format!("{}:/usr/bin:/bin", case.dir.join("bin").display())),
            ("STANDIN", case.dir.display().to_string()),
            ("TMPDIR", case.dir.join("tmp").display().to_string()),
        ]
        .into_iter()
        .map(|(k, v)| (k.to_string(), v))
        .collect(),
        dir,
    };
    for d in [&stage.bin, &stage.log, &case.dir.join("tmp"), &case.dir.join("published"), &case.dir.join("npm")] {
        mkdir(d)?;
    }

    // What is built for each platform
    let says = version_line(case)?;
    let mut built: BTreeMap<&str, Vec<u8>> = BTreeMap::new();
    for (_, _, target) in PLATFORMS {
        let mut binary = Vec::new();
        if target == HOST {
            binary.extend(format!("#!/bin/sh\necho '{}'\nexit 0\n", says.replace("@", &v)).into_bytes());
        } else {
            binary.extend(format!("for {target}\n").into_bytes());
        }
        if !tape.chance(30) {
            binary.extend(junk(tape, 60_000));
        }
        executable(&case.dir.join("build").join(target), &binary)?;
        built.insert(target, binary);
    }
    let publishing = "printf '%s\\0' \"$@\" >> \"$STANDIN/log/$(basename \"$0\")\"\nprintf '\\001\\n' >> \"$STANDIN/log/$(basename \"$0\")\"\n";
    executable(
        &stage.bin.join("cargo"),
        format!(
            "#!/bin/bash\n{publishing}for a in \"$@\"; do case \"$a\" in --target=*) T=\"${{a#--target=}}\";; esac; done\n\
             [ -e \"$STANDIN/fail-cargo-$T\" ] && exit 101\nmkdir -p \"target/$T/release/deps\"\n\
             cp \"$STANDIN/build/$T\" \"target/$T/release/qlc\"\necho x > \"target/$T/release/qlc.d\"\n"
        ),
    )?;
    executable(
        &stage.bin.join("ghr"),
        format!("#!/bin/bash\n{publishing}[ -e \"$STANDIN/fail-ghr\" ] && exit 1\ncp -r \"${{@: -1}}\" \"$STANDIN/published/assets\"\n"),
    )?;
    executable(
        &stage.bin.join("yarn"),
        format!("#!/bin/bash\n{publishing}[ -e \"$STANDIN/fail-yarn\" ] && exit 1\ncp -r . \"$STANDIN/npm/package\"\n"),
    )?;

    // What goes wrong
    let fault = if tape.chance(30) { tape.range(1, 6) } else { 0 };
    let target = tape.pick(&PLATFORMS).2;
    let what = match fault {
        0 => "nothing",
        1 => {
            run::write_file(&case.dir.join(format!("fail-cargo-{target}")), "")?;
            "a build fails"
        }
        2 => "a binary is missing",
        3 => {
            run::write_file(&case.dir.join("fail-ghr"), "")?;
            "the upload fails"
        }
        4 => "a checksum is missing",
        5 => {
            run::write_file(&case.dir.join("fail-yarn"), "")?;
            "the publication fails"
        }
        _ => "the binary does not run",
    };
    case.label(what);
    case.note("release", format!("{v}; {what} ({target})"));
    case.nontrivial();
    if tape.chance(25) {
        // An earlier attempt broke off among the archives
        for (_, _, t) in PLATFORMS {
            if tape.chance(60) {
                let path = stage.dir.join(format!("archives/qlc-{v}-{t}.tar.gz"));
                run::write_file(&path, junk(tape, 2_000))?;
            }
        }
        case.label("archives of an earlier attempt");
    }
    net::give_away(&case.dir);

    // Build
    let ran = stage.script(case, "build-release-binary.sh")?;
    if fault == 1 {
        return if ran.code == Some(0) {
            violation(format!("the build of {target} fails, but the script succeeds\n{}", shown(&ran)))
        } else {
            Ok(())
        };
    }
    if ran.code != Some(0) {
        return violation(format!("the build fails\n{}", shown(&ran)));
    }
    for (t, binary) in &built {
        if std::fs::read(stage.dir.join("target").join(t).join("release/qlc")).ok().as_ref() != Some(binary) {
            return violation(format!("nothing is built for {t}\n{}", shown(&ran)));
        }
    }

    // Upload
    if fault == 2 {
        let _ = std::fs::remove_file(stage.dir.join("target").join(target).join("release/qlc"));
    }
    let host_binary = stage.dir.join("target").join(HOST).join("release/qlc");
    if fault == 6 && tape.chance(50) {
        executable(&host_binary, "#!/bin/sh\nexit 3\n")?;
    }
    let broken_early = fault == 2 || fault == 6 && std::fs::read(&host_binary).is_ok_and(|b| b == b"#!/bin/sh\nexit 3\n");
    let ran = stage.script(case, "make-github-release.sh")?;
    let calls = stage.calls("ghr");
    if broken_early {
        return if ran.code == Some(0) || !calls.is_empty() {
            violation(format!("{what}, but something is uploaded or the script succeeds: {calls:?}\n{}", shown(&ran)))
        } else {
            Ok(())
        };
    }
    if fault == 3 {
        return if ran.code == Some(0) {
            violation(format!("the upload fails, but the script succeeds\n{}", shown(&ran)))
        } else {
            Ok(())
        };
    }
    if ran.code != Some(0) {
        return violation(format!("the upload fails\n{}", shown(&ran)));
    }
    let [call] = &calls[..] else {
        return violation(format!("not one upload: {calls:?}"));
    };
    let pre = v.contains("-alpha") || v.contains("-beta");
    if call.len() < 2 || call[call.len() - 2] != v {
        return violation(format!("the tag is not {v}: {call:?}"));
    }
    if (pre || !v.contains('-')) && call.iter().any(|a| a == "-prerelease") != pre {
        return violation(format!("marked as a pre-release or not: {call:?}"));
    }
    if after(call, "-c") != Some("0123456789abcdef0123456789abcdef01234567") || after(call, "-n") != Some(&format!("v{v}")) {
        return violation(format!("not the commit or name of the release: {call:?}"));
    }
    let assets = run::snapshot(&case.dir.join("published/assets"));
    let mut sums: BTreeMap<&str, String> = BTreeMap::new();
    let sums_text = String::from_utf8_lossy(assets.get("checksums.txt").map(|v| &v[..]).unwrap_or_default()).into_owned();
    for (t, binary) in &built {
        let name = format!("qlc-{v}-{t}.tar.gz");
        let Some(archive) = assets.get(&name) else {
            return violation(format!("{name} is not uploaded, but {:?}", assets.keys().collect::<Vec<_>>()));
        };
        let sum = net::sha256(archive);
        let listed = sums_text
            .lines()
            .any(|l| l.split_once("  ").is_some_and(|(s, n)| s == sum && n.rsplit('/').next() == Some(&name)));
        if !listed {
            return violation(format!("{name} is not in the list of checksums with {sum}:\n{sums_text}"));
        }
        sums.insert(t, sum);
        let to = case.dir.join("unpacked").join(t);
        mkdir(&to)?;
        let status = std::process::Command::new("tar")
            .arg("xzf")
            .arg(case.dir.join("published/assets").join(&name))
            .args(["--no-same-owner", "-C"])
            .arg(&to)
            .status();
        let inside = run::snapshot(&to);
        if !status.is_ok_and(|s| s.success()) || inside.len() != 1 || inside.get("qlc") != Some(binary) {
            return violation(format!("{name} does not hold the binary of {t}, but {:?}", inside.keys().collect::<Vec<_>>()));
        }
    }
    if assets.len() != 5 {
        return violation(format!("uploaded: {:?}", assets.keys().collect::<Vec<_>>()));
    }

    // Publication
    let list = stage.dir.join("archives/checksums.txt");
    if fault == 4 {
        let text = std::fs::read_to_string(&list).unwrap_or_default();
        let rest: Vec<&str> = text.lines().filter(|l| !l.contains(target)).collect();
        run::write_file(&list, rest.join("\n") + "\n")?;
    }
    if fault == 6 {
        executable(&host_binary, "#!/bin/sh\nexit 3\n")?;
    }
    let ran = stage.script(case, "make-npm-release.sh")?;
    let calls = stage.calls("yarn");
    if fault == 4 || fault == 6 {
        return if ran.code == Some(0) || !calls.is_empty() {
            violation(format!("{what}, but something is published or the script succeeds: {calls:?}\n{}", shown(&ran)))
        } else {
            Ok(())
        };
    }
    if fault == 5 {
        return if ran.code == Some(0) {
            violation(format!("the publication fails, but the script succeeds\n{}", shown(&ran)))
        } else {
            Ok(())
        };
    }
    if ran.code != Some(0) {
        return violation(format!("the publication fails\n{}", shown(&ran)));
    }
    let [call] = &calls[..] else {
        return violation(format!("not one publication: {calls:?}"));
    };
    let tag = if v.contains("-alpha") {
        Some("alpha")
    } else if v.contains("-beta") {
        Some("beta")
    } else {
        None
    };
    if after(call, "--new-version") != Some(&v) || call.first().map(|s| s.as_str()) != Some("publish") {
        return violation(format!("published as {call:?}"));
    }
    if (v.contains("-alpha") || v.contains("-beta") || !v.contains('-')) && after(call, "--tag") != tag {
        return violation(format!("published under another tag than {tag:?}: {call:?}"));
    }
    let package = case.dir.join("npm/package");
    let manifest: Value = match std::fs::read(package.join("package.json")).map(|b| serde_json::from_slice(&b)) {
        Ok(Ok(v)) => v,
        other => return violation(format!("package.json: {other:?}")),
    };
    let expected: BTreeMap<&str, &str> = sums.iter().map(|(t, s)| (*t, s.as_str())).collect();
    if manifest["version"] != json!(v) || manifest["checksumConfig"] != json!(expected) {
        return violation(format!("the package has version {} and checksums {}", manifest["version"], manifest["checksumConfig"]));
    }

    // Installation
    let (platform, arch, target) = *tape.pick(&PLATFORMS);
    let name = format!("qlc-{v}-{target}.tar.gz");
    let mut scenario = Scenario::default();
    for (asset, contents) in &assets {
        let first = format!("/notarize/qlc/releases/download/{v}/{asset}");
        let second = format!("/assets/{asset}");
        scenario.routes.push(Route {
            host: "github.com".into(),
            path: first,
            steps: vec![
                Step::Write(
                    format!("HTTP/1.1 302 Found\r\nLocation: https://objects.githubusercontent.com{second}\r\nContent-Length: 0\r\n\r\n")
                        .into_bytes(),
                ),
                Step::Keep,
            ],
            ..Route::default()
        });
        scenario.routes.push(Route {
            host: "objects.githubusercontent.com".into(),
            path: second,
            steps: respond(tape, 200, contents, Framing::Length),
            ..Route::default()
        });
    }
    let (http, https) = net::set(&scenario)?;
    let mut i = net::node(&package, vec!["-r".into(), net::scratch_file("stub.js").into(), "./lib/postinstall.js".into()]);
    i.env.insert(
        "QLC_STUB".into(),
        json!({"platform": platform, "arch": arch, "http": http, "https": https}).to_string(),
    );
    i.env.insert("TMPDIR".into(), case.dir.join("tmp").display().to_string());
    case.stats.runs += 1;
    let ran = net::run_node(&i)?;
    if ran.code != Some(0) {
        return violation(format!("the package does not install {name}\n{}", shown(&ran)));
    }
    let i = net::node(&case.dir, vec!["-p".into(), "require('./npm/package')".into()]);
    let ran = net::run_node(&i)?;
    let path = PathBuf::from(ran.out().trim_end_matches('\n'));
    if ran.code != Some(0) || std::fs::read(&path).ok().as_ref() != Some(&built[target]) {
        return violation(format!("the package's path is not that of the binary of {target}\n{}", shown(&ran)));
    }
    let mode = std::fs::metadata(&path).map(|m| m.permissions().mode() & 0o111).unwrap_or(0);
    if mode != 0o111 {
        return violation("the installed binary cannot be executed");
    }
    Ok(())
}

/// What the compiler prints as its version, with an @ for the version itself
fn version_line(case: &mut Case<'_>) -> Result<String, Stop> {
    let ran = run::run(&Invocation::default().arg("--version"))?;
    case.stats.runs += 1;
    let line = ran.out().trim_end().to_string();
    let Some((name, version)) = line.rsplit_once(' ') else {
        return violation(format!("--version: {}", ran.describe()));
    };
    let manifest = std::fs::read_to_string(run::repo_dir().join("Cargo.toml")).unwrap_or_default();
    if !manifest.contains(&format!("version = \"{version}\"")) {
        return violation(format!("--version is not that of Cargo.toml: {}", ran.describe()));
    }
    Ok(format!("{name} @"))
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P23",
        rule: "the release scripts run with stand-ins for cargo, ghr and yarn: versions, binaries, and a failure in one of the steps; what is uploaded and published is compared with what was built, and installed for one of the platforms; all are non-trivial",
        quick_cases: 800,
        thorough_cases: 12_000,
        tape: (80, 300),
        run: p23,
        prepare: Some(prepare),
        assumptions: &["cargo, ghr and yarn do what their arguments say", "a job runs only when those before it succeeded"],
        ..Check::base()
    }]
}
