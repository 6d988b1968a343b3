//! P21: schemas that are malformed are rejected, and what the compiler does not use does not count.

use crate::common::*;
use crate::diag;
use crate::engine::{inconclusive, violation, Case, Check, Outcome, Stop};
use crate::run::{self, expect_clean};
use crate::tape::Tape;
use serde_json::{json, Map, Value};

/// What has to be where
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Slot {
    /// An object with required members
    Object,
    List,
    Name,
    /// Kind of a type definition
    TypeKind,
    /// Kind of the type of a field
    RefKind,
    Wrapped,
}

fn ref_slots(v: &Value, at: &str, out: &mut Vec<(String, Slot)>) {
    out.push((at.to_string(), Slot::Object));
    out.push((format!("{at}/kind"), Slot::RefKind));
    match v["kind"].as_str() {
        Some("NON_NULL" | "LIST") => {
            out.push((format!("{at}/ofType"), Slot::Wrapped));
            ref_slots(&v["ofType"], &format!("{at}/ofType"), out);
        }
        _ => out.push((format!("{at}/name"), Slot::Name)),
    }
}

/// Every required piece of a schema
fn slots(v: &Value) -> Vec<(String, Slot)> {
    let mut out = vec![
        (String::new(), Slot::Object),
        ("/data".to_string(), Slot::Object),
        ("/data/__schema".to_string(), Slot::Object),
        ("/data/__schema/types".to_string(), Slot::List),
    ];
    let types = v.pointer("/data/__schema/types").and_then(|t| t.as_array()).cloned().unwrap_or_default();
    for (i, t) in types.iter().enumerate() {
        let at = format!("/data/__schema/types/{i}");
        out.push((at.clone(), Slot::Object));
        out.push((format!("{at}/kind"), Slot::TypeKind));
        out.push((format!("{at}/name"), Slot::Name));
        let mut list = |key: &str, fields: bool, out: &mut Vec<(String, Slot)>| {
            out.push((format!("{at}/{key}"), Slot::List));
            for (j, f) in t[key].as_array().into_iter().flatten().enumerate() {
                let at = format!("{at}/{key}/{j}");
                out.push((at.clone(), Slot::Object));
                out.push((format!("{at}/name"), Slot::Name));
                if fields {
                    ref_slots(&f["type"], &format!("{at}/type"), out);
                }
            }
        };
        match t["kind"].as_str() {
            Some("OBJECT") => list("fields", true, &mut out),
            Some("INTERFACE") => {
                list("fields", true, &mut out);
                list("possibleTypes", false, &mut out);
            }
            Some("UNION") => list("possibleTypes", false, &mut out),
            Some("INPUT_OBJECT") => list("inputFields", true, &mut out),
            Some("ENUM") => list("enumValues", false, &mut out),
            _ => {}
        }
    }
    out
}

#[derive(Debug, Clone)]
enum Damage {
    Remove,
    Put(Value),
    /// Given as another member
    Move(&'static str),
}

fn damages(slot: Slot, at: &str) -> Vec<Damage> {
    let mut out: Vec<Damage> = Vec::new();
    let last = at.rsplit('/').next().unwrap_or("");
    // Taking an entry out of a list leaves a good schema
    if !at.is_empty() && last.parse::<usize>().is_err() {
        out.push(Damage::Remove);
    }
    let put: Vec<Value> = match slot {
        Slot::Object => vec![json!(null), json!({}), json!(3), json!("text"), json!(true), json!({"unrelated": {"kind": "SCALAR", "name": "String"}})],
        Slot::List => vec![json!(null), json!(3), json!("text"), json!({}), json!(false), json!([null]), json!(["Name"]), json!([{}]), json!([3])],
        Slot::Name => vec![json!(null), json!(3), json!(true), json!([]), json!({}), json!(["Name"])],
        Slot::TypeKind => ["", "object", "THING", "INPUT", "LIST", "NON_NULL", "Object", "OBJECT ", "TYPE", "DIRECTIVE"]
            .iter()
            .map(|s| json!(s))
            .chain([json!(null), json!(3), json!([]), json!({}), json!(false)])
            .collect(),
        Slot::RefKind => ["", "object", "THING", "INPUT", "scalar", "Object", "OBJECT ", "NONNULL", "NON-NULL"]
            .iter()
            .map(|s| json!(s))
            .chain([json!(null), json!(3), json!([]), json!({}), json!(false)])
            .collect(),
        Slot::Wrapped => vec![json!(null), json!({}), json!(3), json!("String"), json!({"kind": "SCALAR"}), json!({"name": "String"}), json!({"kind": "SCALAR", "name": null})],
    };
    out.extend(put.into_iter().map(Damage::Put));
    match slot {
        Slot::List if last != "types" => {
            let keys = ["fields", "inputFields", "enumValues", "possibleTypes", "interfaces", "values"];
            out.extend(keys.iter().filter(|k| **k != last).map(|k| Damage::Move(k)));
        }
        Slot::List => out.push(Damage::Move("type")),
        Slot::Name => out.extend(["Name", "typeName", "ofType", "description", "id"].map(Damage::Move)),
        Slot::Wrapped => out.extend(["type", "oftype", "of_type", "wrapped"].map(Damage::Move)),
        Slot::Object if last == "data" => out.push(Damage::Move("Data")),
        Slot::Object if last == "__schema" => out.extend(["schema", "_schema"].map(Damage::Move)),
        Slot::Object if last == "type" => out.extend(["ofType", "Type"].map(Damage::Move)),
        Slot::TypeKind | Slot::RefKind => out.extend(["Kind", "type", "__typename"].map(Damage::Move)),
        Slot::Object => {}
    }
    if slot == Slot::RefKind {
        // Wrapping nothing, or naming nothing
        out.push(Damage::Put(json!("<other>")));
    }
    out
}

fn apply(v: &mut Value, at: &str, damage: &Damage) -> bool {
    match damage {
        Damage::Remove => {
            let (parent, key) = at.rsplit_once('/').unwrap();
            match v.pointer_mut(parent) {
                Some(Value::Object(m)) => m.remove(key).is_some(),
                _ => false,
            }
        }
        Damage::Move(to) => {
            let (parent, key) = at.rsplit_once('/').unwrap();
            match v.pointer_mut(parent) {
                Some(Value::Object(m)) => {
                    let Some(old) = m.remove(key) else { return false };
                    if *to != "ofType" {
                        m.insert(to.to_string(), old);
                    } else if !m.get("ofType").map_or(false, |o| o.is_object()) {
                        m.insert(to.to_string(), json!({"kind": "SCALAR", "name": old}));
                    }
                    true
                }
                _ => false,
            }
        }
        Damage::Put(new) => match v.pointer_mut(at) {
            Some(slot) => {
                let mut new = new.clone();
                if new == json!("<other>") {
                    new = match slot.as_str() {
                        Some("NON_NULL" | "LIST") => json!("OBJECT"),
                        _ => json!("LIST"),
                    };
                }
                *slot = new;
                true
            }
            None => false,
        },
    }
}

fn expect_rejected(case: &mut Case<'_>, project: &Project, text: &[u8], what: &str) -> Outcome {
    let root = case.dir.join("root");
    let mut invocation = project.invocation(&root);
    if project.docs.len() % 2 == 0 {
        invocation = invocation.arg("-s").arg(root.join("schema.json"));
    }
    run::write_file(&root.join("schema.json"), text)?;
    let before = run::snapshot(&root);
    case.stats.runs += 1;
    let ran = run::run(&invocation)?;
    expect_clean(&ran)?;
    let report = match diag::parse(&ran.out()) {
        Ok(r) => r,
        Err(e) => return violation(format!("{what}: {e}; {}", ran.describe())),
    };
    let how = format!("{what}: {}", ran.describe());
    let errors = report.error_list();
    if ran.code != Some(1) || errors.is_empty() {
        return violation(format!("accepted: {how}"));
    }
    if let Err(e) = diag::consistent(&report, ran.code) {
        return violation(format!("{e}: {how}"));
    }
    if errors.len() != 1 || !errors[0].text.starts_with("malformed schema") {
        return violation(format!("not one malformed-schema error: {how}"));
    }
    if run::snapshot(&root) != before {
        return violation(format!("something was written: {how}"));
    }
    Ok(())
}

/// Only members the compiler reads
fn bare(v: &Value) -> Value {
    fn reference(v: &Value) -> Value {
        let mut m = Map::new();
        m.insert("kind".into(), v["kind"].clone());
        if v["ofType"].is_object() {
            m.insert("ofType".into(), reference(&v["ofType"]));
        } else {
            m.insert("name".into(), v["name"].clone());
        }
        Value::Object(m)
    }
    let mut types = Vec::new();
    for t in v["data"]["__schema"]["types"].as_array().into_iter().flatten() {
        let mut m = Map::new();
        for k in ["kind", "name", "description"] {
            if !t[k].is_null() {
                m.insert(k.into(), t[k].clone());
            }
        }
        for k in ["fields", "inputFields"] {
            if let Some(a) = t[k].as_array() {
                let fields: Vec<Value> = a
                    .iter()
                    .map(|f| {
                        let mut m = Map::new();
                        m.insert("name".into(), f["name"].clone());
                        m.insert("type".into(), reference(&f["type"]));
                        if !f["description"].is_null() {
                            m.insert("description".into(), f["description"].clone());
                        }
                        if f["isDeprecated"] == json!(true) {
                            m.insert("isDeprecated".into(), json!(true));
                        }
                        Value::Object(m)
                    })
                    .collect();
                m.insert(k.into(), Value::Array(fields));
            }
        }
        for k in ["enumValues", "possibleTypes"] {
            if let Some(a) = t[k].as_array() {
                m.insert(k.into(), a.iter().map(|e| json!({"name": e["name"]})).collect());
            }
        }
        types.push(Value::Object(m));
    }
    let mut schema = Map::new();
    for (k, usual) in [("queryType", "Query"), ("mutationType", "Mutation"), ("subscriptionType", "")] {
        let name = &v["data"]["__schema"][k]["name"];
        if !name.is_null() && name != usual {
            schema.insert(k.into(), json!({"name": name}));
        }
    }
    schema.insert("types".into(), Value::Array(types));
    json!({"data": {"__schema": schema}})
}

/// Well-formed types that neither the documents nor the other types mention, among them those of the
/// introspection itself
fn unread_types(tape: &mut Tape<'_>, types: &mut Vec<Value>) {
    let string = || json!({"kind": "SCALAR", "name": "String", "ofType": null});
    for _ in 0..tape.range(1, 3) {
        let name = *tape.pick(&["__Schema", "__TypeKind", "__Meta", "__meta", "_Service", "_Any", "Unread", "ZZZ"]);
        if types.iter().any(|t| t["name"] == name) {
            continue;
        }
        let wrapped = json!({"kind": "NON_NULL", "name": null, "ofType": {"kind": "LIST", "name": null, "ofType":
            {"kind": "NON_NULL", "name": null, "ofType": string()}}});
        let fields = json!([
            {"name": "one", "description": null, "args": [{"name": "first", "description": null, "type": string(), "defaultValue": null}],
                "type": wrapped.clone(), "isDeprecated": false, "deprecationReason": null},
            {"name": "two", "description": null, "args": [], "type": string(), "isDeprecated": true, "deprecationReason": "Not read"},
        ]);
        let kind = *tape.pick(&["OBJECT", "ENUM", "INPUT_OBJECT", "INTERFACE", "UNION"]);
        let mut t = json!({"kind": kind, "name": name, "description": null, "fields": null, "inputFields": null,
            "interfaces": null, "enumValues": null, "possibleTypes": null});
        let possible = || json!([{"kind": "OBJECT", "name": types[0]["name"], "ofType": null}]);
        match kind {
            "OBJECT" => {
                t["fields"] = fields;
                t["interfaces"] = json!([]);
            }
            "INTERFACE" => {
                t["fields"] = fields;
                t["possibleTypes"] = possible();
            }
            "UNION" => t["possibleTypes"] = possible(),
            "ENUM" => {
                t["enumValues"] = json!([{"name": "ONE", "description": null, "isDeprecated": false, "deprecationReason": null},
                    {"name": "TWO", "description": null, "isDeprecated": true, "deprecationReason": "Not read"}]);
            }
            _ => {
                t["inputFields"] = json!([{"name": "one", "description": null, "type": wrapped, "defaultValue": null},
                    {"name": "two", "description": null, "type": string(), "defaultValue": "\"x\""}]);
            }
        }
        types.push(t);
    }
}

fn malformed(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.depth = 2;
    options.docs.operations = (1, 2);
    let project = gen_project(tape, &options);
    let root = case.dir.join("root");
    let mut v = project.schema.json();
    let what;
    let text: Vec<u8>;
    if tape.chance(30) {
        v = bare(&v);
        let whole = if tape.chance(30) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        let mut b = whole.into_bytes();
        match tape.below(5) {
            0 | 1 => {
                let n = tape.below(b.len());
                b.truncate(n);
                what = format!("cut after {n} bytes");
            }
            2 => {
                let junk = *tape.pick(&["x", "}", "{}", "]", ",", "null", "\u{0}", "\n\n{\"data\":{}}", "//"]);
                b.extend_from_slice(junk.as_bytes());
                what = format!("followed by {junk:?}");
            }
            3 => {
                let at = tape.below(b.len());
                let new = *tape.pick(&[0xffu8, 0x00, b'"', b'{', b']', b',', b'\\', 0xc3, b'\n']);
                b[at] = new;
                what = format!("byte {at} replaced by {new:#x}");
            }
            _ => {
                let at = tape.below(b.len());
                let gone = b.remove(at);
                what = format!("byte {at} ({:?}) removed", gone as char);
            }
        }
        if serde_json::from_slice::<Value>(&b).is_ok() {
            case.exclude("still JSON");
            return Ok(());
        }
        case.label("not JSON");
        text = b;
    } else {
        if tape.chance(30) {
            v = bare(&v);
        }
        let mut all = slots(&v);
        if tape.chance(35) {
            // Types no document is about are part of the schema as well
            let types = v["data"]["__schema"]["types"].as_array_mut().unwrap();
            let before = types.len();
            unread_types(tape, types);
            if types.len() > before {
                all = slots(&v)
                    .into_iter()
                    .filter(|(at, _)| {
                        let mut steps = at.trim_start_matches('/').split('/').skip(2);
                        steps.next() == Some("types")
                            && steps.next().and_then(|i| i.parse::<usize>().ok()).map_or(false, |i| i >= before)
                    })
                    .collect();
                case.label("in a type nothing reads");
            }
        }
        // As much about the deep pieces as about the few above
        let kinds = [Slot::Object, Slot::List, Slot::Name, Slot::TypeKind, Slot::RefKind, Slot::Wrapped];
        let kind = *tape.pick(&kinds);
        let of_kind: Vec<&(String, Slot)> = all.iter().filter(|s| s.1 == kind).collect();
        let (at, slot) = if of_kind.is_empty() { tape.pick(&all).clone() } else { (*tape.pick(&of_kind)).clone() };
        let options = damages(slot, &at);
        let damage = tape.pick(&options).clone();
        if !apply(&mut v, &at, &damage) {
            return inconclusive(format!("{at} is not there"));
        }
        what = format!("{slot:?} {at} {damage:?}");
        case.label(&format!("{slot:?}"));
        text = if tape.chance(30) {
            super::metamorphic::shuffled_json(tape, &v).into_bytes()
        } else {
            v.to_string().into_bytes()
        };
    }
    project.note(case);
    case.note("damage", what.clone());
    project.write(&root)?;
    if tape.chance(50) {
        // From an earlier run
        for d in &project.docs {
            run::write_file(&root.join(d.output()), "// earlier\n")?;
        }
        run::write_file(&root.join(project.globals_path()), "// earlier\n")?;
    }
    expect_rejected(case, &project, &text, &what)?;
    case.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// What does not count

struct Decorator {
    added: usize,
    nulls: usize,
}

const UNKNOWN: [&str; 16] = [
    "extensions", "__typename", "isRepeatable", "specifiedByURL", "isOneOf", "directives", "appliedDirectives", "sdl", "Kind", "NAME",
    "types_", "schema", "", "x-é", "locations", "isDeprecated_",
];

fn anything(tape: &mut Tape<'_>, depth: usize) -> Value {
    match tape.below(if depth == 0 { 7 } else { 9 }) {
        0 => json!(null),
        1 => json!(true),
        2 => json!(-1.5e3),
        3 => json!("text \u{1F600} \"quoted\" \\ \n"),
        4 => json!("LIST"),
        5 => json!([]),
        6 => json!({}),
        7 => {
            let n = tape.below(4);
            Value::Array((0..n).map(|_| anything(tape, depth - 1)).collect())
        }
        _ => {
            let mut m = Map::new();
            for _ in 0..tape.below(4) {
                let k = *tape.pick(&["name", "kind", "type", "ofType", "fields", "types", "data", "__schema", "isDeprecated"]);
                m.insert(k.into(), anything(tape, depth - 1));
            }
            Value::Object(m)
        }
    }
}

impl Decorator {
    fn unknown(&mut self, tape: &mut Tape<'_>, m: &mut Map<String, Value>, percent: u32) {
        if tape.chance(percent) {
            for _ in 0..tape.range(1, 2) {
                let k = *tape.pick(&UNKNOWN);
                if !m.contains_key(k) {
                    self.added += 1;
                    let v = anything(tape, 2);
                    m.insert(k.into(), v);
                }
            }
        }
    }

    /// A member that does not apply here
    fn inapplicable(&mut self, tape: &mut Tape<'_>, m: &mut Map<String, Value>, key: &str, list: bool) {
        match tape.below(if list { 4 } else { 3 }) {
            0 => {}
            1 => {
                self.nulls += 1;
                m.remove(key);
            }
            2 => {
                m.insert(key.into(), Value::Null);
            }
            _ => {
                self.nulls += 1;
                m.insert(key.into(), json!([]));
            }
        }
    }

    fn reference(&mut self, tape: &mut Tape<'_>, v: &mut Value) {
        let m = v.as_object_mut().unwrap();
        self.unknown(tape, m, 5);
        if matches!(m["kind"].as_str(), Some("LIST" | "NON_NULL")) {
            self.inapplicable(tape, m, "name", false);
            self.reference(tape, m.get_mut("ofType").unwrap());
        } else {
            self.inapplicable(tape, m, "ofType", false);
        }
    }

    fn field(&mut self, tape: &mut Tape<'_>, v: &mut Value, deprecations: bool) {
        let m = v.as_object_mut().unwrap();
        self.unknown(tape, m, 15);
        if m.get("description").map_or(true, |d| d.is_null()) {
            self.inapplicable(tape, m, "description", false);
        }
        if m.get("isDeprecated").map_or(true, |d| *d != json!(true)) && deprecations {
            match tape.below(3) {
                0 => {}
                1 => {
                    m.remove("isDeprecated");
                }
                _ => {
                    m.insert("isDeprecated".into(), if tape.chance(50) { json!(false) } else { json!(null) });
                }
            }
        }
        for k in ["args", "deprecationReason", "defaultValue"] {
            if tape.chance(20) {
                self.added += 1;
                let v = if k == "args" && tape.chance(60) {
                    json!([{"name": "first", "description": "How many", "type": {"kind": "SCALAR", "name": "Int", "ofType": null}, "defaultValue": "10"}])
                } else {
                    anything(tape, 2)
                };
                m.insert(k.into(), v);
            } else if tape.chance(10) {
                m.remove(k);
            }
        }
        self.reference(tape, m.get_mut("type").unwrap());
    }

    fn type_definition(&mut self, tape: &mut Tape<'_>, v: &mut Value) {
        let m = v.as_object_mut().unwrap();
        self.unknown(tape, m, 20);
        let kind = m["kind"].as_str().unwrap().to_string();
        let used: &[&str] = match kind.as_str() {
            "OBJECT" => &["fields"],
            "INTERFACE" => &["fields", "possibleTypes"],
            "UNION" => &["possibleTypes"],
            "ENUM" => &["enumValues"],
            "INPUT_OBJECT" => &["inputFields"],
            _ => &[],
        };
        for k in ["fields", "inputFields", "enumValues", "possibleTypes"] {
            if !used.contains(&k) {
                self.inapplicable(tape, m, k, true);
                continue;
            }
            for e in m.get_mut(k).unwrap().as_array_mut().unwrap() {
                match k {
                    "fields" => self.field(tape, e, true),
                    "inputFields" => self.field(tape, e, true),
                    _ => {
                        let e = e.as_object_mut().unwrap();
                        self.unknown(tape, e, 10);
                        for extra in ["kind", "ofType", "description", "isDeprecated", "deprecationReason"] {
                            if tape.chance(10) {
                                let v = anything(tape, 1);
                                e.insert(extra.into(), v);
                            } else if tape.chance(10) {
                                e.remove(extra);
                            }
                        }
                    }
                }
            }
        }
        match tape.below(4) {
            0 => {}
            1 => {
                m.remove("interfaces");
            }
            2 => {
                self.added += 1;
                m.insert("interfaces".into(), json!([{"kind": "INTERFACE", "name": "Elsewhere", "ofType": null}]));
            }
            _ => {
                self.added += 1;
                let v = anything(tape, 2);
                m.insert("interfaces".into(), v);
            }
        }
        if m.get("description").map_or(true, |d| d.is_null()) {
            self.inapplicable(tape, m, "description", false);
        }
        if kind == "SCALAR" && tape.chance(20) {
            m.insert("description".into(), json!("A scalar */ of some kind"));
        }
    }

    fn extra_types(&mut self, tape: &mut Tape<'_>, types: &mut Vec<Value>) {
        let string = || json!({"kind": "SCALAR", "name": "String", "ofType": null});
        let standard = [
            json!({"kind": "OBJECT", "name": "__Schema", "description": "A GraphQL Schema.", "fields": [
                {"name": "types", "args": [], "type": {"kind": "NON_NULL", "name": null, "ofType": {"kind": "LIST", "name": null, "ofType":
                    {"kind": "NON_NULL", "name": null, "ofType": {"kind": "OBJECT", "name": "__Type", "ofType": null}}}}, "isDeprecated": false, "deprecationReason": null}],
                "inputFields": null, "interfaces": [], "enumValues": null, "possibleTypes": null}),
            json!({"kind": "OBJECT", "name": "__Type", "fields": [{"name": "name", "args": [], "type": string(), "isDeprecated": true}], "interfaces": []}),
            json!({"kind": "ENUM", "name": "__TypeKind", "enumValues": [{"name": "SCALAR"}, {"name": "LIST"}]}),
            json!({"kind": "OBJECT", "name": "Subscription", "fields": [{"name": "ticked", "args": [], "type": string()}]}),
            json!({"kind": "OBJECT", "name": "Unrelated", "fields": []}),
            json!({"kind": "INTERFACE", "name": "UnrelatedToo", "fields": [{"name": "a", "type": string()}], "possibleTypes": []}),
            json!({"kind": "UNION", "name": "UnrelatedUnion", "possibleTypes": [{"name": "Unrelated"}, {"name": "Gone"}]}),
            json!({"kind": "INPUT_OBJECT", "name": "UnrelatedInput", "inputFields": [{"name": "self", "type": {"kind": "INPUT_OBJECT", "name": "UnrelatedInput"}}]}),
            json!({"kind": "SCALAR", "name": "UnrelatedScalar", "specifiedByURL": "https://example.com"}),
            json!({"kind": "ENUM", "name": "UnrelatedEnum", "enumValues": []}),
        ];
        for t in standard {
            let taken = types.iter().any(|o| o["name"] == t["name"]);
            if !taken && tape.chance(25) {
                self.added += 1;
                let at = tape.below(types.len() + 1);
                types.insert(at, t);
            }
        }
    }
}

fn printed_json(tape: &mut Tape<'_>, v: &Value, out: &mut String, style: u32) {
    let gap = |tape: &mut Tape<'_>, out: &mut String| {
        if style > 0 && tape.chance(style) {
            out.push_str(*tape.pick(&[" ", "\n", "\t", "\r\n", "  "]));
        }
    };
    let text = |tape: &mut Tape<'_>, s: &str, out: &mut String| {
        if style > 0 && tape.chance(5) {
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04X}"));
            }
            out.push('"');
        } else {
            out.push_str(&json!(s).to_string());
        }
    };
    match v {
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            tape.shuffle(&mut keys);
            out.push('{');
            for (i, k) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(tape, out);
                text(tape, k, out);
                gap(tape, out);
                out.push(':');
                gap(tape, out);
                printed_json(tape, &m[k], out, style);
                gap(tape, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(tape, out);
                printed_json(tape, v, out, style);
                gap(tape, out);
            }
            out.push(']');
        }
        Value::String(s) => text(tape, s, out),
        other => out.push_str(&other.to_string()),
    }
}

fn decorated(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.docs.operations = (1, 3);
    options.docs.fragments = (0, 2);
    let mut project = gen_project(tape, &options);
    project.config.deprecations = tape.chance(60);
    let root = case.dir.join("root");
    let mut v = project.schema.json();
    if tape.chance(25) {
        v = bare(&v);
        case.label("bare");
    }
    let mut d = Decorator { added: 0, nulls: 0 };
    {
        let root = v.as_object_mut().unwrap();
        d.unknown(tape, root, 40);
        if tape.chance(20) {
            root.insert("errors".into(), json!([]));
        }
        let data = root.get_mut("data").unwrap().as_object_mut().unwrap();
        d.unknown(tape, data, 30);
        let schema = data.get_mut("__schema").unwrap().as_object_mut().unwrap();
        d.unknown(tape, schema, 30);
        if tape.chance(40) {
            d.added += 1;
            schema.insert("directives".into(), json!([{"name": "auth", "description": null, "locations": ["FIELD"], "args": [
                {"name": "if", "type": {"kind": "NON_NULL", "name": null, "ofType": {"kind": "SCALAR", "name": "Boolean"}}, "defaultValue": null}]}]));
        } else if tape.chance(20) {
            schema.remove("directives");
        }
        if tape.chance(20) {
            schema.insert("description".into(), json!("About */ it all"));
        }
        let types = schema.get_mut("types").unwrap().as_array_mut().unwrap();
        for t in types.iter_mut() {
            d.type_definition(tape, t);
        }
        d.extra_types(tape, types);
    }
    let mut text = String::new();
    let style = *tape.pick(&[0, 10, 60]);
    if style > 0 && tape.chance(30) {
        text.push_str(" \r\n\t");
    }
    printed_json(tape, &v, &mut text, style);
    if tape.chance(30) {
        text.push_str("\n \t\r\n");
    }
    project.note(case);
    case.note("decorated schema", text.clone());
    let plain = accept(case, &project)?;
    let before: Vec<_> = plain.report.diags.clone();
    for f in plain.files.keys() {
        let _ = std::fs::remove_file(root.join(f));
    }
    run::write_file(&root.join("schema.json"), &text)?;
    let other = compile(case, &project, &root)?;
    if let Err(Stop::Violation(e)) = expect_accepted(&other) {
        return violation(format!("with the decorated schema: {e}"));
    }
    let (mut a, mut b) = (before, other.report.diags.clone());
    a.sort();
    b.sort();
    if a != b {
        return violation(format!("messages differ: {a:?}\ndecorated: {b:?}"));
    }
    if plain.files != other.files {
        let k = plain
            .files
            .keys()
            .chain(other.files.keys())
            .find(|k| plain.files.get(*k) != other.files.get(*k))
            .unwrap();
        return violation(format!("{k} differs:\n{:?}\ndecorated:\n{:?}", plain.files.get(k), other.files.get(k)));
    }
    case.label("decorated");
    case.label_if(d.nulls > 0, "nulls and empty lists");
    case.label_if(!a.is_empty(), "with warnings");
    if d.added + d.nulls > 0 {
        case.nontrivial();
    }
    Ok(())
}

fn p21(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    if tape.chance(55) {
        malformed(tape, case)
    } else {
        decorated(tape, case)
    }
}

const SMALL: &str = r#"{"data":{"__schema":{"types":[
{"kind":"OBJECT","name":"Query","fields":[
 {"name":"a","type":{"kind":"NON_NULL","name":null,"ofType":{"kind":"LIST","name":null,"ofType":{"kind":"SCALAR","name":"String","ofType":null}}}},
 {"name":"u","type":{"kind":"UNION","name":"U"}},
 {"name":"e","type":{"kind":"ENUM","name":"E"}}]},
{"kind":"OBJECT","name":"Unused","fields":[{"name":"b","type":{"kind":"SCALAR","name":"String"}}]},
{"kind":"INTERFACE","name":"I","fields":[{"name":"b","type":{"kind":"SCALAR","name":"String"}}],"possibleTypes":[{"name":"Unused"}]},
{"kind":"UNION","name":"U","possibleTypes":[{"name":"Query"},{"name":"Unused"}]},
{"kind":"INPUT_OBJECT","name":"In","inputFields":[{"name":"n","type":{"kind":"LIST","ofType":{"kind":"NON_NULL","ofType":{"kind":"INPUT_OBJECT","name":"In"}}}}]},
{"kind":"ENUM","name":"E","enumValues":[{"name":"A"},{"name":"B"}]},
{"kind":"SCALAR","name":"String"}]}}}"#;

/// Every damage to every piece of a small schema with all kinds of types, and every prefix of it
fn all_damages(case: &mut Case<'_>) -> Outcome {
    let mut project = Project::default();
    project.schema_text = SMALL.to_string();
    let root = case.dir.join("root");
    project.write(&root)?;
    run::write_file(&root.join("q.graphql"), "query Q($in: In) { a u { ... on Unused { b } } e }")?;
    run::write_file(&root.join("empty.graphql"), "")?;
    let v: Value = serde_json::from_str(SMALL).unwrap();
    let mut n = 0;
    for (at, slot) in slots(&v) {
        for damage in damages(slot, &at) {
            let mut w = v.clone();
            if !apply(&mut w, &at, &damage) {
                continue;
            }
            let what = format!("{slot:?} {at} {damage:?}");
            expect_rejected(case, &project, w.to_string().as_bytes(), &what)?;
            n += 1;
        }
    }
    for end in 0..SMALL.len() {
        expect_rejected(case, &project, &SMALL.as_bytes()[..end], &format!("the first {end} bytes"))?;
        n += 1;
    }
    for text in ["", " ", "null", "[]", "3", "\"text\"", "{}", "{\"data\":null}", "{\"errors\":[{\"message\":\"no\"}]}", "<html></html>",
        "{\"data\":{\"__schema\":null}}", "{\"data\":{}}", "{\"__schema\":{\"types\":[]}}", "{\"data\":{\"__schema\":{}}}"] {
        expect_rejected(case, &project, text.as_bytes(), text)?;
        n += 1;
    }
    case.note("damages", n.to_string());
    case.label("every damage to a small schema");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P21",
        rule: "generated projects whose schema loses or has replaced one required piece (any type, used or not), or is no longer JSON, and others whose schema is decorated with unknown members, arguments, directives, interface lists, further types, nulls, and other formatting; non-trivial: damaged, or decorated with something",
        quick_cases: 12_000,
        thorough_cases: 150_000,
        tape: (300, 2500),
        shrink_iters: 300,
        fixed: &[("every damage to a small schema", all_damages)],
        assumptions: &["arrays in place of JSON objects are not generated"],
        run: p21,
        ..Check::base()
    }]
}
