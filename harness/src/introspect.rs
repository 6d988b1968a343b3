//! Executes introspection queries the way a server does: parses the query, refuses what is not in
//! the introspection schema, and leaves out deprecated members unless they are asked for.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
enum Token {
    Name(String),
    Punct(char),
    Spread,
    Value(String),
}

fn tokens(text: &str) -> Result<Vec<Token>, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < chars.len() {
        let c = chars[i];
        if c.is_whitespace() || c == ',' || c == '\u{feff}' {
            i += 1;
        } else if c == '#' {
            while i < chars.len() && chars[i] != '\n' {
                i += 1;
            }
        } else if c == '_' || c.is_ascii_alphabetic() {
            let start = i;
            while i < chars.len() && (chars[i] == '_' || chars[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            out.push(Token::Name(chars[start..i].iter().collect()));
        } else if c == '.' && chars[i..].starts_with(&['.', '.', '.']) {
            out.push(Token::Spread);
            i += 3;
        } else if "{}()[]:!$=@|&".contains(c) {
            out.push(Token::Punct(c));
            i += 1;
        } else if c == '"' {
            let start = i;
            i += 1;
            while i < chars.len() && chars[i] != '"' {
                i += 1 + usize::from(chars[i] == '\\');
            }
            i += 1;
            out.push(Token::Value(chars[start..i.min(chars.len())].iter().collect()));
        } else if c == '-' || c.is_ascii_digit() {
            let start = i;
            while i < chars.len() && (chars[i].is_ascii_alphanumeric() || "+-.".contains(chars[i])) {
                i += 1;
            }
            out.push(Token::Value(chars[start..i].iter().collect()));
        } else {
            return Err(format!("syntax error at {c:?}"));
        }
    }
    Ok(out)
}

#[derive(Debug, Clone)]
enum Selection {
    Field {
        key: String,
        name: String,
        args: BTreeMap<String, Value>,
        sels: Vec<Selection>,
    },
    Spread(String),
    Inline(Option<String>, Vec<Selection>),
}

#[derive(Default)]
struct Document {
    operations: Vec<(Option<String>, Vec<Selection>)>,
    fragments: BTreeMap<String, (String, Vec<Selection>)>,
}

struct Parser {
    tokens: Vec<Token>,
    at: usize,
}

impl Parser {
    fn peek(&self) -> Option<&Token> {
        self.tokens.get(self.at)
    }
    fn next(&mut self) -> Option<Token> {
        self.at += 1;
        self.tokens.get(self.at - 1).cloned()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Token::Punct(c)) {
            self.at += 1;
            return true;
        }
        false
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("syntax error: {:?} instead of {c:?}", self.peek()))
        }
    }
    fn name(&mut self) -> Result<String, String> {
        match self.next() {
            Some(Token::Name(n)) => Ok(n),
            other => Err(format!("syntax error: {other:?} instead of a name")),
        }
    }
    fn value(&mut self) -> Result<Value, String> {
        match self.next() {
            Some(Token::Name(n)) if n == "true" => Ok(json!(true)),
            Some(Token::Name(n)) if n == "false" => Ok(json!(false)),
            Some(Token::Name(n)) if n == "null" => Ok(Value::Null),
            Some(Token::Value(v)) => Ok(json!({ "literal": v })),
            other => Err(format!("syntax error: {other:?} is no value")),
        }
    }
    fn selections(&mut self) -> Result<Vec<Selection>, String> {
        self.expect('{')?;
        let mut out = Vec::new();
        while !self.eat('}') {
            if self.peek() == Some(&Token::Spread) {
                self.at += 1;
                match self.peek() {
                    Some(Token::Name(n)) if n == "on" => {
                        self.at += 1;
                        let on = self.name()?;
                        out.push(Selection::Inline(Some(on), self.selections()?));
                    }
                    Some(Token::Name(_)) => out.push(Selection::Spread(self.name()?)),
                    _ => out.push(Selection::Inline(None, self.selections()?)),
                }
                continue;
            }
            let key = self.name()?;
            let name = if self.eat(':') { self.name()? } else { key.clone() };
            let mut args = BTreeMap::new();
            if self.eat('(') {
                while !self.eat(')') {
                    let arg = self.name()?;
                    self.expect(':')?;
                    args.insert(arg, self.value()?);
                }
            }
            let sels = if self.peek() == Some(&Token::Punct('{')) {
                self.selections()?
            } else {
                Vec::new()
            };
            out.push(Selection::Field { key, name, args, sels });
        }
        if out.is_empty() {
            return Err("syntax error: empty selection".into());
        }
        Ok(out)
    }
    fn document(&mut self) -> Result<Document, String> {
        let mut d = Document::default();
        while self.peek().is_some() {
            if self.peek() == Some(&Token::Punct('{')) {
                d.operations.push((None, self.selections()?));
                continue;
            }
            match self.name()?.as_str() {
                "query" => {
                    let name = match self.peek() {
                        Some(Token::Name(_)) => Some(self.name()?),
                        _ => None,
                    };
                    d.operations.push((name, self.selections()?));
                }
                "fragment" => {
                    let name = self.name()?;
                    if self.name()? != "on" {
                        return Err("syntax error: no type condition".into());
                    }
                    let on = self.name()?;
                    let sels = self.selections()?;
                    if d.fragments.insert(name.clone(), (on, sels)).is_some() {
                        return Err(format!("fragment {name} is defined twice"));
                    }
                }
                other => return Err(format!("unexpected {other}")),
            }
        }
        Ok(d)
    }
}

/// Fields of the introspection schema, and the type they lead to
fn field_type(parent: &str, name: &str, modern: bool) -> Option<&'static str> {
    if name == "__typename" {
        return Some("");
    }
    let found = match (parent, name) {
        ("Query", "__schema") => "__Schema",
        ("__Schema", "types" | "queryType" | "mutationType" | "subscriptionType") => "__Type",
        ("__Schema", "directives") => "__Directive",
        ("__Schema", "description") if modern => "",
        ("__Type", "kind" | "name" | "description") => "",
        ("__Type", "specifiedByURL") if modern => "",
        ("__Type", "fields") => "__Field",
        ("__Type", "interfaces" | "possibleTypes" | "ofType") => "__Type",
        ("__Type", "enumValues") => "__EnumValue",
        ("__Type", "inputFields") => "__InputValue",
        ("__Field", "name" | "description" | "isDeprecated" | "deprecationReason") => "",
        ("__Field", "args") => "__InputValue",
        ("__Field", "type") => "__Type",
        ("__InputValue", "name" | "description" | "defaultValue") => "",
        ("__InputValue", "isDeprecated" | "deprecationReason") if modern => "",
        ("__InputValue", "type") => "__Type",
        ("__EnumValue", "name" | "description" | "isDeprecated" | "deprecationReason") => "",
        ("__Directive", "name" | "description" | "locations") => "",
        ("__Directive", "isRepeatable") if modern => "",
        ("__Directive", "args") => "__InputValue",
        _ => return None,
    };
    Some(found)
}

fn takes_deprecated(parent: &str, name: &str, modern: bool) -> bool {
    match (parent, name) {
        ("__Type", "fields" | "enumValues") => true,
        ("__Type", "inputFields") | ("__Field", "args") => modern,
        _ => false,
    }
}

struct Executor<'a> {
    document: &'a Document,
    types: BTreeMap<String, &'a Value>,
    modern: bool,
}

type Collected<'s> = Vec<(String, String, BTreeMap<String, Value>, Vec<&'s [Selection]>)>;

impl<'a> Executor<'a> {
    fn validate(&self, parent: &str, sels: &[Selection], open: &mut BTreeSet<String>) -> Result<(), String> {
        for s in sels {
            match s {
                Selection::Field { name, args, sels, .. } => {
                    let Some(to) = field_type(parent, name, self.modern) else {
                        return Err(format!("Cannot query field {name:?} on type {parent:?}."));
                    };
                    for (arg, value) in args {
                        if arg != "includeDeprecated"
                            || !takes_deprecated(parent, name, self.modern)
                            || !value.is_boolean()
                        {
                            return Err(format!("Unknown argument {arg:?} of {parent}.{name}"));
                        }
                    }
                    if to.is_empty() != sels.is_empty() {
                        return Err(format!("Selection of {parent}.{name}"));
                    }
                    if !sels.is_empty() {
                        self.validate(to, sels, open)?;
                    }
                }
                Selection::Spread(name) => {
                    let Some((on, sels)) = self.document.fragments.get(name) else {
                        return Err(format!("Unknown fragment {name:?}"));
                    };
                    if on != parent {
                        return Err(format!("Fragment {name} cannot be spread in {parent}"));
                    }
                    if !open.insert(name.clone()) {
                        return Err(format!("Fragment {name} spreads itself"));
                    }
                    self.validate(parent, sels, open)?;
                    open.remove(name);
                }
                Selection::Inline(on, sels) => {
                    if on.as_deref().map_or(false, |on| on != parent) {
                        return Err(format!("Impossible fragment in {parent}"));
                    }
                    self.validate(parent, sels, open)?;
                }
            }
        }
        Ok(())
    }

    fn collect<'s>(&'s self, sels: &'s [Selection], out: &mut Collected<'s>) {
        for s in sels {
            match s {
                Selection::Field { key, name, args, sels } => {
                    match out.iter_mut().find(|o| o.0 == *key) {
                        Some(o) => o.3.push(sels),
                        None => out.push((key.clone(), name.clone(), args.clone(), vec![sels])),
                    }
                }
                Selection::Spread(name) => self.collect(&self.document.fragments[name].1, out),
                Selection::Inline(_, sels) => self.collect(sels, out),
            }
        }
    }

    fn object(&self, parent: &str, value: &Value, sels: &[&[Selection]]) -> Value {
        // A reference to a named type stands for the type
        let value = match (parent, value["name"].as_str()) {
            ("__Type", Some(name)) => self.types.get(name).copied().unwrap_or(value),
            _ => value,
        };
        let mut fields = Vec::new();
        for s in sels {
            self.collect(s, &mut fields);
        }
        let mut out = Map::new();
        for (key, name, args, sels) in fields {
            let to = field_type(parent, &name, self.modern).unwrap_or("");
            if name == "__typename" {
                out.insert(key, json!(parent));
                continue;
            }
            let inner = &value[name.as_str()];
            let all = args.get("includeDeprecated") == Some(&json!(true));
            let result = match inner {
                _ if to.is_empty() => inner.clone(),
                Value::Null => Value::Null,
                Value::Array(items) => items
                    .iter()
                    .filter(|i| {
                        all || !takes_deprecated(parent, &name, self.modern) || i["isDeprecated"] != json!(true)
                    })
                    .map(|i| self.object(to, i, &sels))
                    .collect(),
                other => self.object(to, other, &sels),
            };
            out.insert(key, result);
        }
        Value::Object(out)
    }
}

/// The answer of a server with the schema; `modern` ones know what was added to introspection in 2021
pub fn execute(schema: &Value, request: &Value, modern: bool) -> Result<Value, String> {
    let query = request["query"].as_str().ok_or("no query")?;
    let mut parser = Parser {
        tokens: tokens(query)?,
        at: 0,
    };
    let document = parser.document()?;
    let wanted = request["operationName"].as_str();
    let operation = match (wanted, document.operations.as_slice()) {
        (None, [one]) => one,
        (Some(name), all) => all
            .iter()
            .find(|o| o.0.as_deref() == Some(name))
            .ok_or("Unknown operation")?,
        _ => return Err("Must provide operation name if query contains multiple operations.".into()),
    };
    let meta = &schema["data"]["__schema"];
    let executor = Executor {
        document: &document,
        types: meta["types"]
            .as_array()
            .into_iter()
            .flatten()
            .filter_map(|t| Some((t["name"].as_str()?.to_string(), t)))
            .collect(),
        modern,
    };
    executor.validate("Query", &operation.1, &mut BTreeSet::new())?;
    let root = json!({ "__schema": meta });
    Ok(json!({ "data": executor.object("Query", &root, &[&operation.1]) }))
}
