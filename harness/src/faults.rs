//! Invalid documents: one culprit each, planted into a valid document at a random place.

use crate::doc::{print_doc, Doc, DocKind, Field, Layout, Printed, Sel, Var};
use crate::schema::{Kind, Schema, TypeRef};
use crate::tape::Tape;
use std::collections::BTreeSet;

#[derive(Debug, Clone, Default)]
pub struct Expect {
    /// Texts, one of which the message has
    pub texts: Vec<String>,
    pub at: Option<(usize, usize)>,
    /// The location is only part of the text
    pub at_in_text: bool,
    /// Names to be suggested
    pub suggestions: Option<BTreeSet<String>>,
    /// What the help has to say if there is nothing to suggest
    pub otherwise: Option<&'static str>,
    /// What the help has to mention
    pub help: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Fault {
    pub class: &'static str,
    pub text: String,
    pub expect: Expect,
}

pub const CLASSES: [&str; 13] = [
    "unknown field",
    "unknown fragment",
    "missing selection set",
    "selection set on a leaf",
    "no type condition",
    "unknown variable type",
    "output type variable",
    "list of lists variable",
    "anonymous selection set",
    "several definitions",
    "syntax error",
    "unknown field with selections",
    "unclosed",
];

/// Distance with insertions, deletions, replacements and transpositions of neighbours
pub fn distance(a: &str, b: &str) -> usize {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let max = a.len() + b.len();
    let width = b.len() + 2;
    let mut d = vec![0usize; (a.len() + 2) * width];
    let at = |i: usize, j: usize| i * width + j;
    d[at(0, 0)] = max;
    for i in 0..=a.len() {
        d[at(i + 1, 0)] = max;
        d[at(i + 1, 1)] = i;
    }
    for j in 0..=b.len() {
        d[at(0, j + 1)] = max;
        d[at(1, j + 1)] = j;
    }
    let mut last: std::collections::HashMap<char, usize> = Default::default();
    for i in 1..=a.len() {
        let mut last_match = 0;
        for j in 1..=b.len() {
            let k = last.get(&b[j - 1]).copied().unwrap_or(0);
            let l = last_match;
            let cost = if a[i - 1] == b[j - 1] {
                last_match = j;
                0
            } else {
                1
            };
            let swap = d[at(k, l)] + (i - k - 1) + 1 + (j - l - 1);
            let v = (d[at(i, j)] + cost)
                .min(d[at(i + 1, j)] + 1)
                .min(d[at(i, j + 1)] + 1)
                .min(swap);
            d[at(i + 1, j + 1)] = v;
        }
        last.insert(a[i - 1], i);
    }
    d[at(a.len() + 1, b.len() + 1)]
}

/// A name some edits away from one of the given
pub fn misspell(tape: &mut Tape<'_>, names: &[String]) -> String {
    let letters: Vec<char> = "aeinorstxyzADN_09".chars().collect();
    let mut name: Vec<char> = if names.is_empty() || tape.chance(10) {
        "unheardOf".chars().collect()
    } else {
        tape.pick(names).chars().collect()
    };
    for _ in 0..tape.range(1, 4) {
        let n = name.len();
        match tape.below(4) {
            0 => name.insert(tape.below(n + 1), *tape.pick(&letters)),
            1 if n > 1 => {
                name.remove(tape.below(n));
            }
            2 => name[tape.below(n)] = *tape.pick(&letters),
            _ if n > 1 => {
                let i = tape.below(n - 1);
                name.swap(i, i + 1);
            }
            _ => name.push('x'),
        }
    }
    if name[0].is_ascii_digit() {
        name.insert(0, '_');
    }
    name.into_iter().collect()
}

/// All selection sets with the type they are on
fn sets(schema: &Schema, parent: &str, sels: &[Sel], path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    out.push((path.clone(), parent.to_string()));
    for (i, s) in sels.iter().enumerate() {
        path.push(i);
        match s {
            Sel::Field(f) if !f.sels.is_empty() => {
                if let Some(d) = schema.field(parent, &f.name) {
                    sets(schema, d.ty.base(), &f.sels, path, out);
                }
            }
            Sel::Inline { on, sels, .. } => sets(schema, on, sels, path, out),
            _ => {}
        }
        path.pop();
    }
}

fn set_at<'a>(sels: &'a mut Vec<Sel>, path: &[usize]) -> &'a mut Vec<Sel> {
    match path.split_first() {
        None => sels,
        Some((i, rest)) => match &mut sels[*i] {
            Sel::Field(f) => set_at(&mut f.sels, rest),
            Sel::Inline { sels, .. } => set_at(sels, rest),
            Sel::Spread { .. } => unreachable!("no set below a spread"),
        },
    }
}

/// Names of the fragments in scope
pub fn in_scope(docs: &[Doc], i: usize) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![i];
    let mut names = BTreeSet::new();
    while let Some(k) = todo.pop() {
        for import in &docs[k].imports {
            if seen.insert(import.target) {
                todo.push(import.target);
                if docs[import.target].is_fragment() {
                    names.insert(docs[import.target].main_name().to_string());
                }
            }
        }
    }
    names
}

fn near(name: &str, names: impl Iterator<Item = String>) -> BTreeSet<String> {
    names.filter(|n| distance(name, n) <= 2).collect()
}

pub const ID: u32 = 4_000_000_000;

fn place(printed: &Printed) -> Option<(usize, usize)> {
    printed.positions.get(&ID).copied()
}

fn leaf(id: u32, name: &str) -> Field {
    Field {
        id,
        alias: None,
        name: name.to_string(),
        sels: Vec::new(),
    }
}

fn typename() -> Sel {
    Sel::Field(Field {
        id: 0,
        alias: None,
        name: "__typename".into(),
        sels: Vec::new(),
    })
}

/// Line and column of a byte offset, all of it ASCII
fn line_col(text: &str, offset: usize) -> (usize, usize) {
    let before = &text[..offset];
    let line = before.matches('\n').count() + 1;
    let col = offset - before.rfind('\n').map_or(0, |n| n + 1) + 1;
    (line, col)
}

fn offset_of(text: &str, at: (usize, usize)) -> usize {
    let start: usize = text.split_inclusive('\n').take(at.0 - 1).map(|l| l.len()).sum();
    start + at.1 - 1
}

/// Prints the faulty document; the line of the culprit may get a comment
fn print(tape: &mut Tape<'_>, doc: &Doc, layout: Layout) -> Printed {
    let mut printed = print_doc(tape, doc, layout);
    if let (Some(at), Layout::Pretty, true) = (place(&printed), layout, tape.chance(30)) {
        let mut lines: Vec<String> = printed.text.split('\n').map(|l| l.to_string()).collect();
        lines[at.0 - 1].push_str(*tape.pick(&["  # ünï ☃ \"", " # why | ^ -->", "   "]));
        printed.text = lines.join("\n");
    }
    printed
}

/// Classes of faults in selections, of which a document may have several
pub const IN_SELECTIONS: [&str; 6] = [
    "unknown field",
    "unknown field with selections",
    "unknown fragment",
    "missing selection set",
    "selection set on a leaf",
    "no type condition",
];

/// Plants a fault with the given id into the selections of the document; None without a place for it
pub fn plant_selection(
    tape: &mut Tape<'_>,
    schema: &Schema,
    docs: &[Doc],
    i: usize,
    doc: &mut Doc,
    id: u32,
    class: &'static str,
) -> Option<Expect> {
    let mut all = Vec::new();
    sets(schema, doc.static_type(), &doc.sels, &mut Vec::new(), &mut all);
    all.retain(|s| schema.is_composite(&s.1));
    let (path, parent) = all[tape.below(all.len())].clone();
    let fields: Vec<String> = schema
        .get(&parent)
        .map(|t| t.fields.iter().map(|f| f.name.clone()).collect())
        .unwrap_or_default();
    let mut expect = Expect::default();
    match class {
        "unknown field" | "unknown field with selections" => {
            let mut known = fields.clone();
            known.push("__typename".into());
            let name = misspell(tape, &known);
            if known.contains(&name) {
                return None;
            }
            let mut f = leaf(id, &name);
            if tape.chance(30) {
                f.alias = Some("aliased".into());
            }
            if class != "unknown field" {
                f.sels.push(typename());
            }
            let set = set_at(&mut doc.sels, &path);
            let at = tape.below(set.len() + 1);
            set.insert(at, Sel::Field(f));
            expect.texts = vec![format!("unknown field `{name}`")];
            expect.suggestions = Some(near(&name, known.into_iter()));
            expect.help = Some(parent);
        }
        "unknown fragment" => {
            let known: Vec<String> = in_scope(docs, i).into_iter().collect();
            let name = misspell(tape, &known);
            if known.contains(&name) || name == "on" {
                return None;
            }
            let set = set_at(&mut doc.sels, &path);
            let at = tape.below(set.len() + 1);
            set.insert(
                at,
                Sel::Spread {
                    id,
                    name: name.clone(),
                },
            );
            expect.texts = vec![format!("unknown spread fragment name `{name}`")];
            let near = near(&name, known.into_iter());
            if near.is_empty() {
                expect.otherwise = Some("Did you forget to import it?");
            }
            expect.suggestions = Some(near);
        }
        "missing selection set" | "selection set on a leaf" => {
            let composite = class == "missing selection set";
            let pool: Vec<_> = schema
                .get(&parent)?
                .fields
                .iter()
                .filter(|f| schema.is_composite(f.ty.base()) == composite)
                .collect();
            if pool.is_empty() {
                return None;
            }
            let def = *tape.pick(&pool);
            let mut f = leaf(id, &def.name);
            if tape.chance(50) {
                f.alias = Some("zzz".into());
            }
            if !composite {
                f.sels.push(if tape.chance(50) {
                    typename()
                } else {
                    Sel::Field(leaf(0, "id"))
                });
            }
            let set = set_at(&mut doc.sels, &path);
            let at = tape.below(set.len() + 1);
            set.insert(at, Sel::Field(f));
            expect.texts = vec![format!(
                "{} selection on field of type `{}`",
                if composite { "expected" } else { "unexpected" },
                def.ty.base()
            )];
        }
        "no type condition" => {
            let set = set_at(&mut doc.sels, &path);
            let at = tape.below(set.len() + 1);
            set.insert(
                at,
                Sel::Inline {
                    id,
                    on: String::new(),
                    sels: vec![typename()],
                },
            );
            expect.texts = vec!["fragment missing type condition on inline fragment".into()];
        }
        _ => return None,
    }
    Some(expect)
}

/// Plants a fault of the given class into document `i`; None if it has no place for it
pub fn plant(
    tape: &mut Tape<'_>,
    schema: &Schema,
    docs: &[Doc],
    i: usize,
    layout: Layout,
    class: &'static str,
) -> Option<Fault> {
    let mut doc = docs[i].clone();
    let mut expect = Expect::default();
    match class {
        class if IN_SELECTIONS.contains(&class) => {
            expect = plant_selection(tape, schema, docs, i, &mut doc, ID, class)?;
        }
        "unknown variable type" | "output type variable" | "list of lists variable" => {
            if doc.is_fragment() {
                return None;
            }
            let (ty, text): (TypeRef, Vec<String>) = match class {
                "unknown variable type" => {
                    let name = misspell(tape, &schema.names_of(Kind::Input));
                    if schema.get(&name).is_some() {
                        return None;
                    }
                    (
                        crate::schema::wrap(tape, &name, 1),
                        vec![format!("unknown type for variable `{name}`")],
                    )
                }
                "output type variable" => {
                    let pool = schema.composites();
                    let name = tape.pick(&pool).clone();
                    (
                        crate::schema::wrap(tape, &name, 1),
                        vec![format!("invalid type for variable `{name}`")],
                    )
                }
                _ => {
                    let base = tape.pick(&crate::schema::BUILTIN);
                    let mut ty = TypeRef::named(base);
                    for level in 0..tape.range(2, 4) {
                        if tape.chance(40) && level != 2 {
                            ty = ty.non_null();
                        }
                        ty = ty.list();
                    }
                    if tape.chance(50) {
                        ty = ty.non_null();
                    }
                    (
                        ty,
                        vec![
                            "unsupported list of lists type for variable `culprit`".into(),
                            "failed to process variable `culprit`".into(),
                        ],
                    )
                }
            };
            let at = tape.below(doc.vars.len() + 1);
            doc.vars.insert(
                at,
                Var {
                    id: ID,
                    name: "culprit".into(),
                    ty,
                    default: None,
                },
            );
            expect.texts = text;
        }
        "anonymous selection set" => {
            if doc.kind != DocKind::Query {
                return None;
            }
            doc.name = None;
            doc.vars.clear();
            doc.imports.clear();
            let printed = print_doc(tape, &doc, Layout::Pretty);
            let body = &printed.text[printed.text.find('{')?..];
            let head = *tape.pick(&["", "\n", "# comment\n\n   ", "  ", "\n\n#\n  "]);
            expect.at = Some(line_col(head, head.len()));
            expect.texts = vec!["unsupported selection set as operation".into()];
            return Some(Fault {
                class,
                text: format!("{head}{body}"),
                expect,
            });
        }
        "several definitions" => {
            let printed = print_doc(tape, &doc, layout);
            let mut text = printed.text;
            text.push_str(*tape.pick(&["", " ", "\n", "\n\n   ", "# more\n\n"]));
            expect.at = Some(line_col(&text, text.len()));
            expect.texts = vec!["multi definition files unsupported".into()];
            text.push_str(*tape.pick(&[
                "query Second { __typename }\n",
                "fragment Second on Query { __typename }",
                "mutation { __typename }",
                "subscription Second { __typename } # end",
                "{ __typename }",
            ]));
            if tape.chance(30) {
                text.push_str("\nquery Third { __typename }\n");
            }
            return Some(Fault { class, text, expect });
        }
        "syntax error" => {
            let printed = print_doc(tape, &doc, layout);
            let mut ids = Vec::new();
            crate::doc::walk(&doc.sels, &mut |s| {
                if let Sel::Field(f) = s {
                    ids.push(f.id);
                }
            });
            if ids.is_empty() {
                return None;
            }
            let at = printed.positions[tape.pick(&ids)];
            let mut text = printed.text;
            if !text.is_ascii() {
                return None;
            }
            let offset = offset_of(&text, at);
            let stray = *tape.pick(&[")", "]", "!", "=", "|", "&"]);
            text.insert_str(offset, &format!("{stray} "));
            expect.at = Some(at);
            expect.at_in_text = true;
            expect.texts = vec![format!("{stray}")];
            return Some(Fault { class, text, expect });
        }
        _ => {
            let printed = print_doc(tape, &doc, layout);
            let end = printed.text.trim_end().rfind('}')?;
            return Some(Fault {
                class: "unclosed",
                text: printed.text[..end].to_string(),
                expect: Expect {
                    texts: vec!["end of input".into()],
                    at_in_text: true,
                    ..expect
                },
            });
        }
    }
    let printed = print(tape, &doc, layout);
    expect.at = place(&printed);
    Some(Fault {
        class,
        text: printed.text,
        expect,
    })
}
