#![allow(clippy::field_reassign_with_default)]

mod checks;
mod common;
mod diag;
mod doc;
mod engine;
mod faults;
mod introspect;
mod model;
mod net;
mod run;
mod schema;
mod shim;
mod tape;
mod ts;
mod tsc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = "usage: qlc-verif <property> | --replay <file>";
    let all = checks::all();
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["--list"] => {
            for c in &all {
                println!("{}", c.id);
            }
            0
        }
        ["--replay", file] => {
            let body: serde_json::Value = match std::fs::read_to_string(file)
                .map_err(|e| e.to_string())
                .and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string()))
            {
                Ok(b) => b,
                Err(e) => {
                    eprintln!("{file}: {e}");
                    std::process::exit(2);
                }
            };
            match all.iter().find(|c| Some(c.id) == body["property"].as_str()) {
                Some(c) => engine::with_scratch(c, |scratch| engine::replay(c, &body, scratch)),
                None => 2,
            }
        }
        [id] => match all.iter().find(|c| c.id == *id) {
            Some(c) => engine::with_scratch(c, |scratch| engine::run_check(c, scratch)),
            None => {
                eprintln!("{usage}");
                2
            }
        },
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    std::process::exit(code);
}
