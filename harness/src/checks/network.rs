//! P19 and P20: the scripts of the npm package, against a server that misbehaves.

use crate::common::*;
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::introspect;
use crate::net::{self, Request, Route, Scenario, Step};
use crate::run::{self, Ran};
use crate::schema::Kind;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------
// Responses

/// How the end of a body is told
#[derive(Debug, Clone, Copy, PartialEq)]
pub(super) enum Framing {
    Length,
    Chunked,
    Close,
}

fn pieces(tape: &mut Tape<'_>, bytes: &[u8]) -> Vec<Step> {
    let n = match tape.below(4) {
        0 | 1 => 1,
        2 => tape.range(2, 4),
        _ => tape.range(5, 12),
    };
    let mut cuts: Vec<usize> = (1..n).map(|_| tape.below(bytes.len() + 1)).collect();
    cuts.push(0);
    cuts.push(bytes.len());
    cuts.sort_unstable();
    let mut out = Vec::new();
    for w in cuts.windows(2) {
        if w[0] < w[1] {
            out.push(Step::Write(bytes[w[0]..w[1]].to_vec()));
            if tape.chance(50) {
                out.push(Step::Wait(tape.below(4) as u64));
            }
        }
    }
    out
}

fn head(tape: &mut Tape<'_>, status: u16, framing: Framing, length: usize) -> Vec<u8> {
    let reason = *tape.pick(&["OK", "", "Whatever it is", "Not OK"]);
    let mut lines = vec![format!("HTTP/1.1 {status} {reason}")];
    let own = match framing {
        Framing::Length => format!("Content-Length: {length}"),
        Framing::Chunked => "Transfer-Encoding: chunked".to_string(),
        Framing::Close => "Connection: close".to_string(),
    };
    let others = [
        "Content-Type: application/json",
        "Content-Type: text/html; charset=iso-8859-1",
        "content-type: application/octet-stream",
        "Server: test",
        "X-Empty:",
        "Set-Cookie: a=b; c",
        "Cache-Control: no-store",
        "Date: Thu, 01 Jan 2026 00:00:00 GMT",
        "ETag: \"x\"",
    ];
    for _ in 0..tape.below(4) {
        lines.push(tape.pick(&others).to_string());
    }
    let at = tape.range(1, lines.len());
    lines.insert(at, if tape.chance(50) { own } else { own.to_ascii_lowercase() });
    let mut out = lines.join("\r\n").into_bytes();
    out.extend(b"\r\n\r\n");
    out
}

fn chunked(tape: &mut Tape<'_>, body: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    while at < body.len() {
        let most = *tape.pick(&[1usize, 7, 100, 5000, 70_000]);
        let n = tape.range(1, most).max(body.len() / 200).min(body.len() - at);
        let size = if tape.chance(30) { format!("{n:X}") } else { format!("{n:x}") };
        out.extend(size.bytes());
        if tape.chance(10) {
            out.extend(b";name=value");
        }
        out.extend(b"\r\n");
        out.extend(&body[at..at + n]);
        out.extend(b"\r\n");
        at += n;
    }
    out
}

/// A whole response
pub(super) fn respond(tape: &mut Tape<'_>, status: u16, body: &[u8], framing: Framing) -> Vec<Step> {
    let mut bytes = Vec::new();
    if tape.chance(8) {
        bytes.extend(b"HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n");
    }
    bytes.extend(head(tape, status, framing, body.len()));
    match framing {
        Framing::Chunked => {
            bytes.extend(chunked(tape, body));
            bytes.extend(b"0\r\n");
            if tape.chance(10) {
                bytes.extend(b"X-Trailer: 1\r\n");
            }
            bytes.extend(b"\r\n");
        }
        _ => bytes.extend(body),
    }
    let mut steps = pieces(tape, &bytes);
    steps.push(match framing {
        Framing::Close => Step::Fin,
        _ if tape.chance(50) => Step::Fin,
        _ => Step::Keep,
    });
    steps
}

fn framing(tape: &mut Tape<'_>) -> Framing {
    *tape.pick(&[Framing::Length, Framing::Chunked, Framing::Close])
}

/// Statuses with which no body is to be saved
const STATUSES: [u16; 26] = [
    201, 202, 203, 204, 206, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 408, 413, 418, 429, 500, 501, 502,
    503, 504,
];

fn other_status(tape: &mut Tape<'_>, pool: &[u16], body: &[u8]) -> Vec<Step> {
    let status = *tape.pick(pool);
    if status == 204 || status == 304 {
        let mut steps = vec![Step::Write(format!("HTTP/1.1 {status} X\r\n\r\n").into_bytes())];
        steps.push(if tape.chance(50) { Step::Fin } else { Step::Keep });
        return steps;
    }
    let f = framing(tape);
    respond(tape, status, body, f)
}

/// A response to a request that breaks somewhere, as the recipient has to notice
fn broken(tape: &mut Tape<'_>, body: &[u8]) -> (&'static str, Vec<Step>) {
    let end = |tape: &mut Tape<'_>| if tape.chance(50) { Step::Fin } else { Step::Rst };
    match tape.below(8) {
        0 => ("closed before a response", vec![end(tape)]),
        1 => {
            let h = head(tape, 200, Framing::Length, body.len());
            let at = tape.below(h.len() - 4);
            let mut steps = pieces(tape, &h[..at]);
            steps.push(end(tape));
            ("cut in the head", steps)
        }
        2 | 3 => {
            let more = tape.range(1, 2000);
            let keep = tape.below(body.len() + 1);
            let all = if tape.chance(50) { body.len() + more } else { body.len() };
            let mut bytes = head(tape, 200, Framing::Length, all);
            bytes.extend(&body[..if all == body.len() { keep.min(all.saturating_sub(1)) } else { body.len() }]);
            let mut steps = pieces(tape, &bytes);
            if all == 0 {
                // Nothing to cut
                return ("closed before a response", vec![end(tape)]);
            }
            steps.push(end(tape));
            ("cut before its length", steps)
        }
        4 | 5 => {
            let mut bytes = head(tape, 200, Framing::Chunked, 0);
            let start = bytes.len();
            let coded = chunked(tape, body);
            let to = if tape.chance(30) { coded.len() } else { tape.below(coded.len() + 1) };
            bytes.extend(&coded[..to]);
            debug_assert!(bytes.len() >= start);
            let mut steps = pieces(tape, &bytes);
            steps.push(end(tape));
            ("cut between or in chunks", steps)
        }
        6 => {
            let mut bytes = head(tape, 200, Framing::Chunked, 0);
            bytes.extend(chunked(tape, body));
            bytes.extend(*tape.pick(&[&b"zzz\r\nabc\r\n0\r\n\r\n"[..], b"-1\r\n\r\n", b"5\r\nabcdefgh\r\n0\r\n\r\n"]));
            let mut steps = pieces(tape, &bytes);
            steps.push(Step::Fin);
            ("malformed chunks", steps)
        }
        _ => {
            let text = *tape.pick(&[
                "SSH-2.0-OpenSSH_9.6\r\n",
                "HTTP/9.9 200 OK\r\n\r\n",
                "{\"data\": {}}",
                "\r\n\r\n\0\0\0",
                "HTTP/1.1 abc OK\r\nContent-Length: 2\r\n\r\n{}",
                "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n{}",
                "HTTP/1.1 200 OK\r\nBad Header\r\n\r\n{}",
            ]);
            ("no HTTP", vec![Step::Write(text.into()), Step::Fin])
        }
    }
}

pub(super) fn junk(tape: &mut Tape<'_>, most: usize) -> Vec<u8> {
    let n = match tape.below(4) {
        0 => tape.below(20),
        1 => tape.below(600),
        2 => tape.below(20_000),
        _ => tape.below(most),
    };
    let mut x = tape.raw() | 1;
    let text = tape.chance(50);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            if text {
                b"{}\"[]:,\r\n abcdef0123456789\xc3\xa9"[(x % 28) as usize]
            } else {
                x as u8
            }
        })
        .collect()
}

fn brief(steps: &[Step]) -> String {
    let text: Vec<String> = steps
        .iter()
        .map(|s| match s {
            Step::Write(b) => {
                let t: String = String::from_utf8_lossy(b).chars().take(160).collect();
                format!("write {} {t:?}", b.len())
            }
            other => format!("{other:?}"),
        })
        .collect();
    text.join("\n")
}

pub(super) fn shown(ran: &Ran) -> String {
    ran.describe().chars().take(4000).collect()
}

// ---------------------------------------------------------------------------------------------
// P19

struct Place {
    dir: PathBuf,
    /// Given on the command line, and where that is
    argument: Option<OsString>,
    file: PathBuf,
    before: Option<Vec<u8>>,
    /// An unrelated file
    other: Option<(PathBuf, Vec<u8>)>,
}

fn place(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Result<Place, Stop> {
    let dir = case.dir.join("work");
    run::write_file(&dir.join("sub dir/keep.txt"), "kept")?;
    run::write_file(&dir.join("other.json"), "{\"kept\": true}")?;
    let (argument, file) = match tape.below(6) {
        0 | 1 => (None, dir.join("schema.json")),
        2 => (Some("my-schema.json".into()), dir.join("my-schema.json")),
        3 => (Some("sub dir/schéma.json".into()), dir.join("sub dir/schéma.json")),
        4 => (Some("./sub dir/../x".into()), dir.join("x")),
        _ => {
            let f = dir.join("sub dir/absolute.graphql.json");
            (Some(f.clone().into_os_string()), f)
        }
    };
    let before = match tape.below(3) {
        0 => None,
        1 => Some(b"{\"data\": {}}".to_vec()),
        _ => Some(vec![b'o'; 400_000]),
    };
    if let Some(b) = &before {
        run::write_file(&file, b)?;
        case.label("there is a file already");
    }
    net::give_away(&dir);
    Ok(Place {
        dir,
        argument,
        file,
        before,
        other: None,
    })
}

fn download(
    case: &mut Case<'_>,
    place: &Place,
    endpoint: &str,
    slow: Option<usize>,
    room: Option<usize>,
) -> Result<Ran, Stop> {
    let mut args: Vec<OsString> = vec![
        net::package().join("bin/qlc-download-schema").into(),
        endpoint.into(),
    ];
    args.extend(place.argument.clone());
    case.stats.runs += 1;
    let mut invocation = net::node(&place.dir, args);
    if let Some(ms) = slow {
        case.label("files are created slowly");
        net::slow(&mut invocation, ms);
    }
    if let Some(n) = room {
        case.label("no space left");
        net::full(&mut invocation, n);
    }
    net::run_node(&invocation)
}

/// Milliseconds it takes to create a file
fn slowness(tape: &mut Tape<'_>) -> Option<usize> {
    if tape.chance(15) {
        Some(*tape.pick(&[1, 5, 20, 60]))
    } else {
        None
    }
}

/// What the helper has to send
fn asked(requests: &[Request], tls: bool, target: &str, how: &str) -> Result<Value, Stop> {
    let Some(r) = requests.first() else {
        return violation(format!("no request was sent\n{how}"));
    };
    if requests.len() > 1 {
        return violation(format!("{} requests were sent\n{how}", requests.len()));
    }
    if r.method != "POST" || r.target != target || r.tls != tls {
        return violation(format!("{} {} tls={} is asked, not POST {target} tls={tls}\n{how}", r.method, r.target, r.tls));
    }
    let kind = r.header("content-type").unwrap_or("").to_ascii_lowercase();
    if kind.split(';').next().unwrap_or("").trim() != "application/json" {
        return violation(format!("the request is {kind:?}, not JSON\n{how}"));
    }
    match serde_json::from_slice::<Value>(&r.body) {
        Ok(v) if v["query"].is_string() => Ok(v),
        _ => violation(format!(
            "the body of the request is no query: {:?}\n{how}",
            String::from_utf8_lossy(&r.body)
        )),
    }
}

fn saved(place: &Place, body: &[u8], ran: &Ran) -> Outcome {
    if ran.code != Some(0) {
        return violation(format!("the download fails\n{}", shown(ran)));
    }
    match std::fs::read(&place.file) {
        Ok(b) if b == body => {}
        Ok(b) => {
            let at = b.iter().zip(body).position(|(x, y)| x != y).unwrap_or(b.len().min(body.len()));
            return violation(format!(
                "the saved file of {} bytes differs from the response of {} bytes at {at}\n{}",
                b.len(),
                body.len(),
                shown(ran)
            ));
        }
        Err(e) => return violation(format!("{}: {e}\n{}", place.file.display(), shown(ran))),
    }
    others(place, ran)
}

/// Nothing but the file may change, and there are no other files
fn others(place: &Place, ran: &Ran) -> Outcome {
    for (name, contents) in run::snapshot(&place.dir) {
        let path = place.dir.join(&name);
        let fine = match name.trim_end_matches('/') {
            "sub dir/keep.txt" => contents == b"kept",
            "other.json" => contents == b"{\"kept\": true}",
            _ => {
                path == place.file
                    || path.is_dir()
                    || place.other.as_ref().map_or(false, |(p, b)| *p == path && *b == contents)
            }
        };
        if !fine {
            return violation(format!("{name} should not be there, or not like that\n{}", shown(ran)));
        }
    }
    Ok(())
}

/// A failed download leaves nothing, or what was there
fn refused(place: &Place, ran: &Ran) -> Outcome {
    if ran.code == Some(0) {
        return violation(format!("the failure goes unnoticed\n{}", shown(ran)));
    }
    match std::fs::read(&place.file) {
        Err(_) => {}
        Ok(b) if Some(&b) == place.before.as_ref() => {}
        Ok(b) => {
            return violation(format!(
                "{} bytes are left in {}\n{}",
                b.len(),
                place.file.display(),
                shown(ran)
            ))
        }
    }
    others(place, ran)
}

fn target(tape: &mut Tape<'_>) -> String {
    tape.pick(&["/", "/graphql", "/api/v1/graphql", "/graphql?token=a%20b&x=1", "/é", "/a//b/../c?", "/q?query={}"])
        .to_string()
}

/// As it appears in a request
fn sent_target(given: &str) -> String {
    match given {
        "/é" => "/%C3%A9".into(),
        "/a//b/../c?" => "/a//c".into(),
        other => other.to_string(),
    }
}

fn p19(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let kind = tape.below(20);
    if kind < 4 {
        return p19_introspection(tape, case);
    }
    let place = place(tape, case)?;
    let tls = tape.chance(40);
    let path = target(tape);
    let sent = sent_target(&path);
    let body = junk(tape, 300_000);
    let mut scenario = Scenario::default();
    let mut broken_how = "";
    let mut endpoint_host = *tape.pick(&["127.0.0.1", "localhost"]);
    let steps = match kind {
        4..=9 => {
            let f = framing(tape);
            case.label(&format!("{f:?}"));
            respond(tape, 200, &body, f)
        }
        10..=12 => {
            broken_how = "status";
            other_status(tape, &STATUSES, &body)
        }
        13..=17 => {
            let (how, steps) = broken(tape, &body);
            broken_how = how;
            steps
        }
        18 => {
            broken_how = *tape.pick(&["no connection", "closed at once", "untrusted", "TLS to plain HTTP", "wrong arguments"]);
            match broken_how {
                "closed at once" => scenario.connect = Some(*tape.pick(&["fin", "rst"])),
                "TLS to plain HTTP" => scenario.connect = Some("plain"),
                "untrusted" => scenario.cert = Some("untrusted"),
                _ => {}
            }
            respond(tape, 200, &body, Framing::Length)
        }
        _ => {
            broken_how = "cannot be saved";
            respond(tape, 200, &body, Framing::Length)
        }
    };
    let tls = match broken_how {
        "untrusted" | "TLS to plain HTTP" => true,
        _ => tls,
    };
    if !tls && broken_how == "TLS to plain HTTP" {
        endpoint_host = "127.0.0.1";
    }
    case.note("response", brief(&steps));
    case.note("kind", format!("{broken_how} tls={tls} {path} {:?} {:?}", scenario.connect, place.argument));
    case.label(if broken_how.is_empty() { "complete" } else { broken_how });
    case.label(if tls { "https" } else { "http" });
    scenario.routes.push(Route {
        host: "*".into(),
        path: "*".into(),
        steps,
        ..Route::default()
    });
    let (http, https) = net::set(&scenario)?;
    let mut endpoint = format!(
        "{}://{endpoint_host}:{}{path}",
        if tls { "https" } else { "http" },
        if tls { https } else { http }
    );
    let mut place = place;
    let slow = slowness(tape);
    let mut room = None;
    match broken_how {
        "no connection" => endpoint = format!("{}://127.0.0.1:1{path}", if tls { "https" } else { "http" }),
        "wrong arguments" => {
            endpoint = tape
                .pick(&["", "nonsense", "ftp://127.0.0.1/x", "//127.0.0.1/x", "http://", "file:///etc/hostname", "http://127.0.0.1:99999/"])
                .to_string();
            case.note("endpoint", endpoint.clone());
        }
        "cannot be saved" => {
            if !body.is_empty() && tape.chance(50) {
                room = Some(tape.below(body.len()));
            } else {
                place.other = place.before.take().map(|b| (place.file.clone(), b));
            }
            if room.is_some() {
            } else if tape.chance(50) {
                place.argument = Some("missing/schema.json".into());
                place.file = place.dir.join("missing/schema.json");
            } else {
                mkdir(&place.dir.join("taken"))?;
                place.argument = Some("taken".into());
                place.file = place.dir.join("taken");
            }
        }
        _ => {}
    }
    let ran = download(case, &place, &endpoint, slow, room)?;
    let requests = net::log()?;
    case.nontrivial();
    if broken_how.is_empty() {
        asked(&requests, tls, &sent, &shown(&ran))?;
        return saved(&place, &body, &ran);
    }
    refused(&place, &ran)
}

fn meta_types() -> Vec<Value> {
    ["__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive"]
        .iter()
        .map(|n| {
            json!({"kind": "OBJECT", "name": n, "description": "Part of introspection", "interfaces": [],
                "inputFields": null, "enumValues": null, "possibleTypes": null,
                "fields": [{"name": "name", "description": null, "args": [], "isDeprecated": false, "deprecationReason": null,
                    "type": {"kind": "SCALAR", "name": "String", "ofType": null}}]})
        })
        .collect()
}

/// The schema as a server has it
fn server_schema(tape: &mut Tape<'_>, project: &Project, modern: bool, deprecated_inputs: bool) -> Value {
    let mut v = project.schema.json();
    let types = v["data"]["__schema"]["types"].as_array_mut().unwrap();
    types.extend(meta_types());
    for t in types.iter_mut() {
        for f in t["inputFields"].as_array_mut().into_iter().flatten() {
            let m = f.as_object_mut().unwrap();
            m.remove("isDeprecated");
            if modern {
                let deprecated = deprecated_inputs && tape.chance(50);
                m.insert("isDeprecated".into(), json!(deprecated));
                m.insert("deprecationReason".into(), Value::Null);
            }
        }
        if !modern && t["kind"] == "INTERFACE" {
            t["interfaces"] = Value::Null;
        }
        for e in t["enumValues"].as_array_mut().into_iter().flatten() {
            e["isDeprecated"] = json!(tape.chance(25));
        }
        for f in t["fields"].as_array_mut().into_iter().flatten() {
            if tape.chance(20) {
                f["args"] = json!([{"name": "first", "description": null, "defaultValue": "10",
                    "type": {"kind": "SCALAR", "name": "Int", "ofType": null}}]);
            }
        }
    }
    v
}

fn p19_introspection(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    // The download asks for a bounded number of wrappers
    options.large = 0;
    options.schema.descriptions = 40;
    options.schema.deprecations = 30;
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(60);
    let modern = tape.chance(50);
    let full = server_schema(tape, &project, modern, false);
    case.label("introspection");
    same_schema(tape, case, project, full, modern).map(|_| ())
}

/// Downloads the schema from a server that has it, and compiles with it and with the original
fn same_schema(tape: &mut Tape<'_>, case: &mut Case<'_>, mut project: Project, full: Value, modern: bool) -> Outcome {
    project.note(case);
    // The query is needed before there can be an answer
    let place = place(tape, case)?;
    let path = target(tape);
    let any = |steps: Vec<Step>| Scenario {
        routes: vec![Route {
            host: "*".into(),
            path: "*".into(),
            steps,
            ..Route::default()
        }],
        ..Scenario::default()
    };
    let (http, _) = net::set(&any(vec![Step::Fin]))?;
    let ran = download(case, &place, &format!("http://127.0.0.1:{http}{path}"), None, None)?;
    let request = asked(&net::log()?, false, &sent_target(&path), &shown(&ran))?;
    refused(&place, &ran)?;
    let answer = match introspect::execute(&full, &request, modern) {
        Ok(v) => v.to_string().into_bytes(),
        Err(e) => return violation(format!("a server refuses the query: {e}\n{}", request["query"].as_str().unwrap_or(""))),
    };
    let f = framing(tape);
    let steps = respond(tape, 200, &answer, f);
    let (http, https) = net::set(&any(steps))?;
    let endpoint = if tape.chance(50) {
        format!("http://127.0.0.1:{http}{path}")
    } else {
        format!("https://localhost:{https}{path}")
    };
    let ran = download(case, &place, &endpoint, None, None)?;
    net::log()?;
    saved(&place, &answer, &ran)?;
    let root = case.dir.join("root");
    project.schema_text = full.to_string();
    project.write(&root)?;
    let own = compile(case, &project, &root)?;
    expect_accepted(&own)?;
    for f in own.files.keys() {
        let _ = std::fs::remove_file(root.join(f));
    }
    let text = std::fs::read(&place.file).unwrap_or_default();
    run::write_file(&root.join("schema.json"), text)?;
    let with = compile(case, &project, &root)?;
    if own.files != with.files {
        let name = own
            .files
            .keys()
            .chain(with.files.keys())
            .find(|k| own.files.get(*k) != with.files.get(*k))
            .cloned()
            .unwrap_or_default();
        return violation(format!(
            "{name} differs with the downloaded schema:\n{}\n---\n{}\n{}",
            own.files.get(&name).map_or("missing", |s| s),
            with.files.get(&name).map_or("missing", |s| s),
            with.ran.describe()
        ));
    }
    let count = |c: &Compiled| {
        let mut d: Vec<String> = c.report.diags.iter().map(|d| format!("{d:?}")).collect();
        d.sort();
        d
    };
    if own.ran.code != with.ran.code || count(&own) != count(&with) {
        return violation(format!(
            "other messages with the downloaded schema\n{}\n---\n{}",
            own.ran.describe(),
            with.ran.describe()
        ));
    }
    case.label(if modern { "introspection of 2021" } else { "introspection of 2018" });
    case.label_if(!own.report.warning_list().is_empty(), "warnings with the downloaded schema");
    case.nontrivial();
    Ok(())
}

/// Servers that know deprecated input fields only list them on request
fn deprecated_inputs(case: &mut Case<'_>) -> Result<bool, Stop> {
    let data: Vec<u32> = (0..2500u32).map(|i| i.wrapping_mul(2_654_435_761) ^ 0x5bd1_e995).collect();
    for n in 0..40 {
        let mut tape = Tape::new(&data[n * 20..]);
        let project = gen_project(&mut tape, &ProjectOptions::default());
        if project.schema.names_of(Kind::Input).is_empty() || !project.docs.iter().any(|d| !d.vars.is_empty()) {
            continue;
        }
        let mut full = server_schema(&mut tape, &project, true, true);
        for t in full["data"]["__schema"]["types"].as_array_mut().unwrap() {
            for f in t["inputFields"].as_array_mut().into_iter().flatten() {
                f["isDeprecated"] = json!(true);
            }
        }
        crate::engine::wipe(&case.dir);
        match same_schema(&mut tape, case, project, full, true) {
            Ok(()) => {}
            Err(Stop::Violation(m)) if m.contains("differs with the downloaded schema") => return Ok(true),
            Err(e) => return Err(e),
        }
    }
    Ok(false)
}

// ---------------------------------------------------------------------------------------------
// P20

pub(super) const PLATFORMS: [(&str, &str, &str); 4] = [
    ("darwin", "x64", "x86_64-apple-darwin"),
    ("darwin", "arm64", "aarch64-apple-darwin"),
    ("linux", "x64", "x86_64-unknown-linux-musl"),
    ("linux", "arm64", "aarch64-unknown-linux-musl"),
];
const SYSTEMS: [&str; 9] = ["linux", "darwin", "win32", "freebsd", "openbsd", "sunos", "android", "aix", "cygwin"];
const MACHINES: [&str; 11] = ["x64", "arm64", "arm", "ia32", "ppc64", "s390x", "riscv64", "mips", "mipsel", "loong64", "x32"];

/// A platform there is no binary for
fn unsupported_platform(tape: &mut Tape<'_>) -> (&'static str, &'static str) {
    let system = if tape.chance(50) { SYSTEMS[tape.below(2)] } else { *tape.pick(&SYSTEMS[2..]) };
    let machines: Vec<&str> = MACHINES.into_iter().filter(|m| !PLATFORMS.iter().any(|p| (p.0, p.1) == (system, *m))).collect();
    (system, *tape.pick(&machines))
}

const VERSIONS: [&str; 5] = ["1.2.3", "0.12.0", "10.0.0-beta.1", "2.0.0-rc.2", "0.0.1"];

/// A tar archive with one file
fn tar(name: &str, contents: &[u8], mode: u32) -> Vec<u8> {
    let mut h = vec![0u8; 512];
    h[..name.len()].copy_from_slice(name.as_bytes());
    let mut field = |at: usize, text: String| h[at..at + text.len()].copy_from_slice(text.as_bytes());
    field(100, format!("{mode:07o}"));
    field(108, "0001750".into());
    field(116, "0001750".into());
    field(124, format!("{:011o}", contents.len()));
    field(136, "14000000000".into());
    field(148, "        ".into());
    field(156, "0".into());
    field(257, "ustar\0".into());
    field(263, "00".into());
    let sum: u32 = h.iter().map(|b| u32::from(*b)).sum();
    h[148..156].copy_from_slice(format!("{sum:06o}\0 ").as_bytes());
    h.extend(contents);
    while h.len() % 512 != 0 {
        h.push(0);
    }
    h.extend([0u8; 1024]);
    h
}

fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = (c >> 1) ^ (0xedb8_8320 & (c & 1).wrapping_neg());
        }
    }
    !c
}

/// Without compression, which gzip allows
fn gzip(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let blocks: Vec<&[u8]> = data.chunks(65_000).collect();
    for (i, b) in blocks.iter().enumerate() {
        out.push(u8::from(i + 1 == blocks.len()));
        out.extend((b.len() as u16).to_le_bytes());
        out.extend((!(b.len() as u16)).to_le_bytes());
        out.extend(*b);
    }
    out.extend(crc32(data).to_le_bytes());
    out.extend((data.len() as u32).to_le_bytes());
    out
}

fn p20(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let dir = case.dir.join("package");
    net::copy_tree(net::package(), &dir).map_err(Stop::Inconclusive)?;
    let version = *tape.pick(&VERSIONS);
    let (platform, arch, target) = *tape.pick(&PLATFORMS);
    let unsupported = tape.chance(12);
    let (platform, arch) = if unsupported { unsupported_platform(tape) } else { (platform, arch) };
    let contents = junk(tape, 200_000);
    let good = gzip(&tar("qlc", &contents, *tape.pick(&[0o644, 0o755, 0o600])));
    let mut reasons: Vec<&'static str> = Vec::new();
    if unsupported {
        reasons.push("unsupported platform");
    }

    // What is served in the end
    let mut served = good.clone();
    let mut good = good;
    match tape.below(10) {
        3 if tape.chance(30) => {
            // Nothing that can be unpacked, but the checksum is that of it
            good = b"<html>Sign in to go on</html>".to_vec();
            served = good.clone();
            reasons.push("no archive");
        }
        0 => {
            let at = tape.below(served.len());
            served[at] ^= 1 << tape.below(8);
            reasons.push("one bit differs");
        }
        1 => {
            let to = tape.below(served.len());
            served.truncate(to);
            reasons.push("a truncated archive");
        }
        2 => {
            served = match tape.below(5) {
                0 => gzip(&tar("qlc", b"#!/bin/sh\necho something else\n", 0o755)),
                1 => Vec::new(),
                2 => [&good[..], b"\n"].concat(),
                3 => gzip(&tar("qlc", &[&contents[..], b"x"].concat(), 0o755)),
                _ => tar("qlc", &contents, 0o755),
            };
            reasons.push("another archive");
        }
        _ => {}
    }
    let right = net::sha256(&good);
    let mut sums = serde_json::Map::new();
    for (_, _, t) in PLATFORMS {
        sums.insert(t.into(), json!(net::sha256(t.as_bytes())));
    }
    match if tape.chance(20) { tape.below(6) } else { 9 } {
        0 => {
            sums.remove(target);
            reasons.push("no checksum");
        }
        1 => {
            sums.insert(target.into(), json!(format!("@{target}_CHECKSUM@")));
            reasons.push("no checksum");
        }
        2 => {
            let mut wrong = right.clone().into_bytes();
            let at = tape.below(wrong.len());
            wrong[at] = if wrong[at] == b'0' { b'1' } else { b'0' };
            sums.insert(target.into(), json!(String::from_utf8(wrong).unwrap()));
            reasons.push("another checksum");
        }
        3 => {
            sums.insert(target.into(), json!(""));
            reasons.push("no checksum");
        }
        4 => {
            sums.insert(target.into(), json!(right[..tape.range(1, 63)]));
            reasons.push("another checksum");
        }
        5 => {
            // That of another platform
            let other = PLATFORMS.iter().find(|p| p.2 != target).unwrap().2;
            sums.insert(other.into(), json!(right));
            reasons.push("another checksum");
        }
        _ => {
            sums.insert(target.into(), json!(right));
        }
    }
    if unsupported {
        // Whichever binary is taken for that platform could be installed
        for (_, _, t) in PLATFORMS {
            sums.insert(t.into(), json!(right));
        }
    }
    let manifest = dir.join("package.json");
    let mut package: Value = match std::fs::read(&manifest).map(|b| serde_json::from_slice(&b)) {
        Ok(Ok(v)) => v,
        other => return Err(Stop::Inconclusive(format!("package.json: {other:?}"))),
    };
    package["version"] = json!(version);
    package["checksumConfig"] = Value::Object(sums);
    run::write_file(&manifest, package.to_string())?;

    // What is there
    let old: Option<&[u8]> = match tape.below(3) {
        0 => None,
        1 => Some(b"#!/bin/sh\necho old\n"),
        _ => Some(&[b'x'; 3000]),
    };
    let bin = dir.join("bin");
    if tape.chance(15) {
        let _ = std::fs::remove_file(bin.join("qlc-download-schema"));
        let _ = std::fs::remove_dir(&bin);
        case.label("no bin directory");
    } else if let Some(old) = old {
        run::write_file(&bin.join("qlc"), old)?;
        let _ = std::fs::set_permissions(bin.join("qlc"), std::fs::Permissions::from_mode(0o700));
        case.label("an old binary");
    }
    if tape.chance(2) {
        mkdir(&dir.join(format!("qlc-{version}-{target}.tar.gz")))?;
        reasons.push("the name of the archive is taken");
    }
    let temp = case.dir.join("tmp");
    mkdir(&temp)?;
    net::give_away(&dir);
    net::give_away(&temp);
    let before = run::snapshot(&dir);

    // The way to the archive
    let archive = format!("qlc-{version}-{target}.tar.gz");
    let first = format!("/notarize/qlc/releases/download/{version}/{archive}");
    let mut hops: Vec<(String, String)> = vec![("github.com".into(), first.clone())];
    let count = *tape.pick(&[0usize, 1, 1, 1, 2, 3, 4, 6]);
    for n in 0..count {
        let host = *tape.pick(&["objects.githubusercontent.com", "release-assets.githubusercontent.com", "mirror.example.com", "github.com"]);
        let query = *tape.pick(&["", "?X-Amz-Signature=0a%2Fb&response-content-disposition=attachment%3B%20filename%3Dx", "?a"]);
        hops.push((host.into(), format!("/storage/{n}/{archive}{query}")));
    }
    let fault_at = if tape.chance(35) { Some(tape.below(hops.len())) } else { None };
    let mut scenario = Scenario::default();
    let mut hurry = false;
    let mut room = None;
    if !served.is_empty() && tape.chance(3) {
        room = Some(tape.below(served.len()));
        reasons.push("no space left");
    }
    for (i, (host, path)) in hops.iter().enumerate() {
        let mut route = Route {
            host: host.clone(),
            path: path.clone(),
            ..Route::default()
        };
        let last = i + 1 == hops.len();
        if fault_at == Some(i) {
            match tape.below(13) {
                10 => {
                    hurry = true;
                    let f = framing(tape);
                    let mut bytes = head(tape, 200, f, served.len());
                    bytes.extend(&served);
                    let to = if tape.chance(20) { 0 } else { tape.below(bytes.len()) };
                    route.steps = pieces(tape, &bytes[..to]);
                    route.steps.push(Step::Keep);
                    reasons.push("stalled");
                }
                11 => {
                    hurry = true;
                    route.handshake = Some("stall");
                    reasons.push("stalled");
                }
                12 => {
                    let (host, path) = &hops[tape.below(i + 1)];
                    let text = format!("HTTP/1.1 302 Found\r\nLocation: https://{host}{path}\r\nContent-Length: 0\r\n\r\n");
                    route.steps = vec![Step::Write(text.into_bytes()), Step::Keep];
                    reasons.push("redirected in a circle");
                }
                0..=2 => {
                    let pool = [400u16, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 504, 204, 304];
                    route.steps = other_status(tape, &pool, &served);
                    reasons.push("error status");
                }
                3..=6 => {
                    let (how, steps) = broken(tape, if served.is_empty() { b"x" } else { &served });
                    route.steps = steps;
                    reasons.push(how);
                }
                7 => {
                    route.cert = Some("untrusted");
                    reasons.push("untrusted server");
                }
                8 => {
                    route.handshake = Some(*tape.pick(&["rst", "fin"]));
                    reasons.push("closed during the handshake");
                }
                _ => {
                    let location = *tape.pick(&["", "Location: http://127.0.0.1:1/x\r\n", "Location: ftp://mirror.example.com/x\r\n", "Location: https://\r\n"]);
                    let text = format!("HTTP/1.1 302 Found\r\n{location}Content-Length: 0\r\n\r\n");
                    route.steps = vec![Step::Write(text.into_bytes()), Step::Fin];
                    reasons.push("redirected to nowhere");
                }
            }
        } else if last {
            let f = framing(tape);
            route.steps = respond(tape, 200, &served, f);
        } else {
            let (host, path) = &hops[i + 1];
            let name = *tape.pick(&["Location", "location"]);
            let to = if tape.chance(10) {
                case.label("relative redirect");
                format!("//{host}{path}")
            } else if *host == hops[i].0 && tape.chance(30) {
                case.label("relative redirect");
                let up = hops[i].1.split('?').next().unwrap().matches('/').count() - 1;
                match tape.below(3) {
                    0 => path.clone(),
                    1 => format!("{}{}", "../".repeat(up), &path[1..]),
                    _ => format!("./{}.{path}", "../".repeat(up)),
                }
            } else {
                format!("https://{host}{path}")
            };
            let body = *tape.pick(&["", "<html>moved</html>"]);
            let text = format!("HTTP/1.1 302 Found\r\n{name}: {to}\r\nContent-Length: {}\r\n\r\n{body}", body.len());
            route.steps = pieces(tape, text.as_bytes());
            route.steps.push(if tape.chance(50) { Step::Fin } else { Step::Keep });
        }
        case.note(format!("https://{host}{path}"), brief(&route.steps));
        scenario.routes.push(route);
    }
    if unsupported {
        for (_, _, t) in PLATFORMS.iter().filter(|p| p.2 != target) {
            let mut route = scenario.routes[0].clone();
            route.path = route.path.replace(target, t);
            scenario.routes.push(route);
        }
    }
    // A certificate or handshake counts for every connection to the host
    if let Some(i) = fault_at {
        let r = &scenario.routes[i];
        let (host, cert, handshake) = (r.host.clone(), r.cert, r.handshake);
        if cert.is_some() || handshake.is_some() {
            let fine = hops.iter().position(|h| h.0 == host).unwrap();
            if fine < i {
                case.label("fault at an earlier hop");
            }
        }
    }
    case.note("what is wrong", format!("{reasons:?}"));
    case.note("install", format!("{version} {platform} {arch} {count} redirects, {} bytes", good.len()));
    for r in &reasons {
        case.label(r);
    }
    let (http, https) = net::set(&scenario)?;
    let mut invocation = net::node(
        &dir,
        vec!["-r".into(), net::scratch_file("stub.js").into(), "./lib/postinstall.js".into()],
    );
    invocation.env.insert(
        "QLC_STUB".into(),
        json!({"platform": platform, "arch": arch, "http": http, "https": https, "hurry": hurry}).to_string(),
    );
    invocation.env.insert("TMPDIR".into(), temp.display().to_string());
    if let Some(ms) = slowness(tape) {
        case.label("files are created slowly");
        net::slow(&mut invocation, ms);
    }
    if let Some(n) = room {
        net::full(&mut invocation, n);
    }
    // Without the program that unpacks, or with one that fails
    let mut unpacks = true;
    if tape.chance(5) {
        unpacks = false;
        let bin = case.dir.join("path");
        mkdir(&bin)?;
        if tape.chance(50) {
            case.label("tar is missing");
        } else {
            case.label("tar fails");
            run::write_file(&bin.join("tar"), *tape.pick(&["#!/bin/sh\nexit 2\n", "#!/bin/sh\nkill -9 $$\n"]))?;
            let _ = std::fs::set_permissions(bin.join("tar"), std::fs::Permissions::from_mode(0o755));
        }
        invocation.env.insert("PATH".into(), bin.display().to_string());
    }
    case.stats.runs += 1;
    let ran = run::run(&invocation)?;
    let requests = net::log()?;
    if ran.timed_out() {
        return if reasons.is_empty() {
            crate::engine::inconclusive(format!("watchdog: {}", ran.describe()))
        } else {
            violation(format!("goes on for a minute although {reasons:?}\n{}", shown(&ran)))
        };
    }
    case.nontrivial();
    let mut after = run::snapshot(&dir);
    let how = shown(&ran);
    if let Some(name) = run::snapshot(&temp).keys().next() {
        return violation(format!("{name} is left in the temporary directory\n{how}"));
    }
    if reasons.is_empty() && (unpacks || ran.code == Some(0)) {
        if ran.code != Some(0) {
            return violation(format!("the installation fails\n{how}"));
        }
        let chain: Vec<(String, String)> = requests
            .iter()
            .map(|r| (r.header("host").unwrap_or("").to_string(), r.target.clone()))
            .collect();
        if chain != hops || requests.iter().any(|r| r.method != "GET" || r.sni.as_deref() != r.header("host")) {
            return violation(format!("{chain:?} is asked for, not {hops:?}\n{how}"));
        }
        if after.remove("bin/qlc").as_ref() != Some(&contents) {
            return violation(format!("bin/qlc is not the one of the archive\n{how}"));
        }
        let mode = std::fs::metadata(bin.join("qlc")).map(|m| m.permissions().mode() & 0o777).unwrap_or(0);
        if mode != 0o755 {
            return violation(format!("bin/qlc has mode {mode:o}\n{how}"));
        }
        let mut unchanged = before.clone();
        unchanged.remove("bin/qlc");
        return same_files(&unchanged, &after, &how);
    }
    if ran.code == Some(0) {
        return violation(format!("succeeds although {reasons:?}\n{how}"));
    }
    same_files(&before, &after, &how)
}

fn same_files(before: &BTreeMap<String, Vec<u8>>, after: &BTreeMap<String, Vec<u8>>, how: &str) -> Outcome {
    for name in before.keys().chain(after.keys()) {
        if name.trim_end_matches('/') == "bin" {
            continue;
        }
        let (a, b) = (before.get(name), after.get(name));
        if a != b {
            return violation(format!(
                "{name} is {} after the installation\n{how}",
                match (a, b) {
                    (None, _) => "new",
                    (_, None) => "gone",
                    _ => "different",
                }
            ));
        }
    }
    Ok(())
}

/// The archives made here are real ones
fn archives(case: &mut Case<'_>) -> Outcome {
    let path: &Path = &case.dir.join("x.tar.gz");
    let contents = vec![7u8; 150_000];
    run::write_file(path, gzip(&tar("qlc", &contents, 0o600)))?;
    let status = std::process::Command::new("tar").arg("xf").arg(path).arg("-C").arg(&case.dir).status();
    if !status.map_or(false, |s| s.success()) || std::fs::read(case.dir.join("qlc")).ok() != Some(contents) {
        return Err(Stop::Inconclusive("tar cannot read an archive made here".into()));
    }
    let sum = std::process::Command::new("sha256sum").arg(path).output();
    let own = net::sha256(&std::fs::read(path).unwrap_or_default());
    match sum {
        Ok(o) if String::from_utf8_lossy(&o.stdout).starts_with(&own) => Ok(()),
        _ => Err(Stop::Inconclusive("sha256sum disagrees".into())),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P19",
            rule: "the helper run against a local http or https server: whole responses in any framing and splitting, 26 other statuses, responses cut or broken anywhere, connection and certificate failures, wrong arguments; and introspection of generated schemas, compiled with the original and with the download; all are non-trivial",
            quick_cases: 2400,
            thorough_cases: 40_000,
            tape: (200, 2500),
            run: p19,
            known: &[("deprecated input fields that a server lists only on request", deprecated_inputs)],
            prepare: Some(net::prepare),
            assumptions: &["types have at most seven wrappers, as far as the query descends", "bodies that end with the connection cannot be told from cut ones and are only cut by a reset"],
            ..Check::base()
        },
        Check {
            id: "P20",
            rule: "the install script, with connections redirected to a local server: platforms, versions, checksums, archives, up to six redirects, and a fault at one of the hops; all are non-trivial",
            quick_cases: 2400,
            thorough_cases: 40_000,
            tape: (60, 500),
            run: p20,
            compiler: false,
            fixed: &[("archives and checksums made here", archives)],
            prepare: Some(net::prepare),
            ..Check::base()
        },
    ]
}
