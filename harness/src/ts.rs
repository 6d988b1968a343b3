//! A tolerant parser for the generated TypeScript, and the comparison of types with the model.

use crate::model::{Config, ObjShape, Prop, Shape};
use crate::schema::{Kind, Schema, TypeRef};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ty {
    Name(String, Vec<Ty>),
    Lit(String),
    Array(Box<Ty>),
    Union(Vec<Ty>),
    Obj(Vec<TsProp>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TsProp {
    pub name: String,
    pub readonly: bool,
    pub optional: bool,
    pub ty: Ty,
    pub doc: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Decl {
    Type {
        name: String,
        exported: bool,
        ty: Ty,
        doc: Option<String>,
    },
    Enum {
        name: String,
        exported: bool,
        members: Vec<(String, String)>,
        doc: Option<String>,
    },
    Const {
        name: String,
        ty: Ty,
    },
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Module {
    pub imports: Vec<(Vec<String>, String)>,
    pub decls: Vec<Decl>,
    pub default_export: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Tok {
    Ident(String),
    Str(String),
    Punct(char),
    Doc(String),
}

fn tokenize(text: &str) -> Result<Vec<Tok>, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < chars.len() {
        let c = chars[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && chars.get(i + 1) == Some(&'/') {
            while i < chars.len() && chars[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && chars.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            loop {
                if j + 1 >= chars.len() {
                    return Err("unterminated comment".into());
                }
                if chars[j] == '*' && chars[j + 1] == '/' {
                    break;
                }
                j += 1;
            }
            if chars.get(i + 2) == Some(&'*') && j > i + 2 {
                out.push(Tok::Doc(chars[i + 3..j].iter().collect()));
            }
            i = j + 2;
        } else if c == '"' || c == '\'' {
            let mut s = String::new();
            let mut j = i + 1;
            loop {
                match chars.get(j) {
                    None | Some('\n') => return Err("unterminated string".into()),
                    Some('\\') => {
                        s.push('\\');
                        if let Some(n) = chars.get(j + 1) {
                            s.push(*n);
                        }
                        j += 2;
                    }
                    Some(x) if *x == c => break,
                    Some(x) => {
                        s.push(*x);
                        j += 1;
                    }
                }
            }
            out.push(Tok::Str(s));
            i = j + 1;
        } else if c.is_alphanumeric() || c == '_' || c == '$' {
            let mut j = i;
            while j < chars.len() && (chars[j].is_alphanumeric() || chars[j] == '_' || chars[j] == '$') {
                j += 1;
            }
            out.push(Tok::Ident(chars[i..j].iter().collect()));
            i = j;
        } else if "{}[]()<>|;:?=,".contains(c) {
            out.push(Tok::Punct(c));
            i += 1;
        } else {
            return Err(format!("unexpected character {c:?}"));
        }
    }
    Ok(out)
}

struct Parser {
    toks: Vec<Tok>,
    at: usize,
    doc: Option<String>,
}

impl Parser {
    fn skip_docs(&mut self) {
        while let Some(Tok::Doc(d)) = self.toks.get(self.at) {
            self.doc = Some(d.clone());
            self.at += 1;
        }
    }
    fn peek(&mut self) -> Option<Tok> {
        self.skip_docs();
        self.toks.get(self.at).cloned()
    }
    fn next(&mut self) -> Option<Tok> {
        let t = self.peek();
        self.at += 1;
        t
    }
    fn is(&mut self, c: char) -> bool {
        self.peek() == Some(Tok::Punct(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, found {:?}", self.peek()))
        }
    }
    fn is_word(&mut self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Ident(s)) if s == w)
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.is_word(w) {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.next() {
            Some(Tok::Ident(s)) => Ok(s),
            other => Err(format!("expected a name, found {other:?}")),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        match self.next() {
            Some(Tok::Str(s)) => Ok(s),
            other => Err(format!("expected a string, found {other:?}")),
        }
    }
    fn ty(&mut self) -> Result<Ty, String> {
        self.eat('|');
        let mut parts = vec![self.postfix()?];
        while self.eat('|') {
            parts.push(self.postfix()?);
        }
        Ok(union(parts))
    }
    fn postfix(&mut self) -> Result<Ty, String> {
        let mut readonly = false;
        if self.is_word("readonly") {
            self.at += 1;
            readonly = true;
        }
        let _ = readonly;
        let mut t = self.primary()?;
        while self.is('[') {
            self.expect('[')?;
            self.expect(']')?;
            t = Ty::Array(Box::new(t));
        }
        Ok(t)
    }
    fn primary(&mut self) -> Result<Ty, String> {
        match self.peek() {
            Some(Tok::Punct('(')) => {
                self.at += 1;
                let t = self.ty()?;
                self.expect(')')?;
                Ok(t)
            }
            Some(Tok::Punct('{')) => {
                self.at += 1;
                let mut props = Vec::new();
                loop {
                    self.doc = None;
                    if self.eat('}') {
                        break;
                    }
                    let doc = self.doc.take();
                    let mut name = match self.next() {
                        Some(Tok::Ident(s)) | Some(Tok::Str(s)) => s,
                        other => return Err(format!("expected a property, found {other:?}")),
                    };
                    let mut readonly = false;
                    if name == "readonly" && !self.is(':') && !self.is('?') {
                        readonly = true;
                        name = match self.next() {
                            Some(Tok::Ident(s)) | Some(Tok::Str(s)) => s,
                            other => return Err(format!("expected a property, found {other:?}")),
                        };
                    }
                    let optional = self.eat('?');
                    self.expect(':')?;
                    let ty = self.ty()?;
                    if !self.eat(';') {
                        self.eat(',');
                    }
                    props.push(TsProp {
                        name,
                        readonly,
                        optional,
                        ty,
                        doc,
                    });
                }
                Ok(Ty::Obj(props))
            }
            Some(Tok::Str(s)) => {
                self.at += 1;
                Ok(Ty::Lit(s))
            }
            Some(Tok::Ident(name)) => {
                self.at += 1;
                let mut args = Vec::new();
                if self.eat('<') {
                    loop {
                        args.push(self.ty()?);
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect('>')?;
                }
                if (name == "Array" || name == "ReadonlyArray") && args.len() == 1 {
                    return Ok(Ty::Array(Box::new(args.remove(0))));
                }
                Ok(Ty::Name(name, args))
            }
            other => Err(format!("expected a type, found {other:?}")),
        }
    }
}

fn union(parts: Vec<Ty>) -> Ty {
    let mut flat = Vec::new();
    for p in parts {
        match p {
            Ty::Union(inner) => flat.extend(inner),
            other => flat.push(other),
        }
    }
    if flat.len() == 1 {
        flat.remove(0)
    } else {
        Ty::Union(flat)
    }
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut p = Parser {
        toks: tokenize(text)?,
        at: 0,
        doc: None,
    };
    let mut m = Module::default();
    loop {
        p.doc = None;
        let Some(_) = p.peek() else { break };
        let doc = p.doc.take();
        if p.eat(';') {
            continue;
        }
        if p.eat_word("import") {
            p.eat_word("type");
            p.expect('{')?;
            let mut names = Vec::new();
            while !p.eat('}') {
                names.push(p.ident()?);
                p.eat(',');
            }
            if !p.eat_word("from") {
                return Err("import without from".into());
            }
            let from = p.string()?;
            m.imports.push((names, from));
            p.eat(';');
            continue;
        }
        let exported = p.eat_word("export");
        if exported && p.eat_word("default") {
            let name = p.ident()?;
            if m.default_export.replace(name).is_some() {
                return Err("two default exports".into());
            }
            p.eat(';');
            continue;
        }
        let declared = p.eat_word("declare");
        if p.eat_word("type") {
            let name = p.ident()?;
            p.expect('=')?;
            let ty = p.ty()?;
            p.eat(';');
            m.decls.push(Decl::Type {
                name,
                exported,
                ty,
                doc,
            });
        } else if p.eat_word("interface") {
            let name = p.ident()?;
            let ty = p.primary()?;
            m.decls.push(Decl::Type {
                name,
                exported,
                ty,
                doc,
            });
        } else if p.eat_word("enum") {
            let name = p.ident()?;
            p.expect('{')?;
            let mut members = Vec::new();
            while !p.eat('}') {
                let member = match p.next() {
                    Some(Tok::Ident(s)) | Some(Tok::Str(s)) => s,
                    other => return Err(format!("expected a member, found {other:?}")),
                };
                p.expect('=')?;
                let value = p.string()?;
                p.eat(',');
                members.push((member, value));
            }
            m.decls.push(Decl::Enum {
                name,
                exported,
                members,
                doc,
            });
        } else if declared && p.eat_word("const") {
            let name = p.ident()?;
            p.expect(':')?;
            let ty = p.ty()?;
            p.eat(';');
            m.decls.push(Decl::Const { name, ty });
        } else {
            return Err(format!("unexpected {:?}", p.peek()));
        }
    }
    Ok(m)
}

impl Module {
    pub fn type_named(&self, name: &str) -> Option<&Ty> {
        self.decls.iter().find_map(|d| match d {
            Decl::Type { name: n, ty, .. } if n == name => Some(ty),
            _ => None,
        })
    }
    pub fn type_names(&self) -> Vec<String> {
        self.decls
            .iter()
            .filter_map(|d| match d {
                Decl::Type { name, .. } | Decl::Enum { name, .. } => Some(name.clone()),
                _ => None,
            })
            .collect()
    }
    pub fn imported_from(&self, module: &str) -> BTreeSet<String> {
        self.imports
            .iter()
            .filter(|(_, from)| from == module)
            .flat_map(|(names, _)| names.iter().cloned())
            .collect()
    }
    /// All names types refer to, anywhere
    pub fn mentioned(&self) -> BTreeSet<String> {
        fn go(t: &Ty, out: &mut BTreeSet<String>) {
            match t {
                Ty::Name(n, args) => {
                    out.insert(n.clone());
                    args.iter().for_each(|a| go(a, out));
                }
                Ty::Lit(_) => {}
                Ty::Array(t) => go(t, out),
                Ty::Union(ts) => ts.iter().for_each(|t| go(t, out)),
                Ty::Obj(props) => props.iter().for_each(|p| go(&p.ty, out)),
            }
        }
        let mut out = BTreeSet::new();
        for d in &self.decls {
            match d {
                Decl::Type { ty, .. } | Decl::Const { ty, .. } => go(ty, &mut out),
                Decl::Enum { .. } => {}
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------
// Comparison

/// Which aspects of a module are compared
#[derive(Debug, Clone, Copy, Default)]
pub struct Aspects {
    pub keys: bool,
    pub wrappers: bool,
    pub naming: bool,
}

pub const KEYS: Aspects = Aspects {
    keys: true,
    wrappers: false,
    naming: false,
};
pub const WRAPPERS: Aspects = Aspects {
    keys: true,
    wrappers: true,
    naming: false,
};
pub const NAMING: Aspects = Aspects {
    keys: true,
    wrappers: false,
    naming: true,
};

pub struct Comparer<'a> {
    pub schema: &'a Schema,
    pub config: &'a Config,
    pub module: &'a Module,
    pub aspects: Aspects,
}

type R = Result<(), String>;

fn strip_null(ty: &Ty) -> (Vec<Ty>, bool) {
    let parts = match ty {
        Ty::Union(parts) => parts.clone(),
        other => vec![other.clone()],
    };
    let before = parts.len();
    let rest: Vec<Ty> = parts
        .into_iter()
        .filter(|p| !matches!(p, Ty::Name(n, a) if n == "null" && a.is_empty()))
        .collect();
    let nullable = rest.len() != before;
    (rest, nullable)
}

pub fn show(ty: &Ty) -> String {
    match ty {
        Ty::Name(n, args) if args.is_empty() => n.clone(),
        Ty::Name(n, args) => format!("{n}<{}>", args.iter().map(show).collect::<Vec<_>>().join(", ")),
        Ty::Lit(s) => format!("{s:?}"),
        Ty::Array(t) => format!("({})[]", show(t)),
        Ty::Union(ts) => ts.iter().map(show).collect::<Vec<_>>().join(" | "),
        Ty::Obj(props) => format!(
            "{{ {} }}",
            props
                .iter()
                .map(|p| format!("{}{}: {}", p.name, if p.optional { "?" } else { "" }, show(&p.ty)))
                .collect::<Vec<_>>()
                .join("; ")
        ),
    }
}

/// The named type inside lists and nulls, without looking at what the wrappers are
pub fn unwrap_all(ty: &Ty) -> Vec<Ty> {
    let (rest, _) = strip_null(ty);
    if rest.len() == 1 {
        if let Ty::Array(inner) = &rest[0] {
            return unwrap_all(inner);
        }
    }
    rest
}

/// Peels the wrappers the schema declares off a type; returns what is left
pub fn peel(ty: &Ty, expected: &TypeRef, place: &str) -> Result<Vec<Ty>, String> {
    fn go(ty: &Ty, expected: &TypeRef, nullable: bool, whole: &Ty, place: &str, decl: &str) -> Result<Vec<Ty>, String> {
        if let TypeRef::NonNull(inner) = expected {
            return go(ty, inner, false, whole, place, decl);
        }
        let (rest, has_null) = strip_null(ty);
        if has_null != nullable {
            return Err(format!(
                "{place}: declared {decl}, but typed `{}` ({} null)",
                show(whole),
                if nullable { "missing" } else { "unexpected" }
            ));
        }
        match expected {
            TypeRef::List(inner) => match rest.as_slice() {
                [Ty::Array(element)] => go(element, inner, true, whole, place, decl),
                _ => Err(format!(
                    "{place}: declared {decl}, but typed `{}` (not a list where one is declared)",
                    show(whole)
                )),
            },
            _ => {
                if rest.iter().any(|t| matches!(t, Ty::Array(_))) {
                    return Err(format!(
                        "{place}: declared {decl}, but typed `{}` (too many lists)",
                        show(whole)
                    ));
                }
                Ok(rest)
            }
        }
    }
    go(ty, expected, true, ty, place, &expected.gql())
}

impl Comparer<'_> {
    pub fn alternatives<'m>(&'m self, tys: &[Ty], place: &str, out: &mut Vec<(Option<String>, Vec<TsProp>)>, depth: usize) -> R {
        if depth > 50 {
            return Err(format!("{place}: type aliases do not end"));
        }
        for t in tys {
            match t {
                Ty::Obj(props) => out.push((None, props.clone())),
                Ty::Union(parts) => self.alternatives(parts, place, out, depth + 1)?,
                Ty::Name(n, _) => match self.module.type_named(n) {
                    Some(Ty::Obj(props)) => out.push((Some(n.clone()), props.clone())),
                    Some(other) => {
                        let mut inner = Vec::new();
                        self.alternatives(std::slice::from_ref(other), place, &mut inner, depth + 1)?;
                        out.extend(inner);
                    }
                    None => return Err(format!("{place}: `{n}` is not an object type of the module")),
                },
                other => return Err(format!("{place}: `{}` where an object is expected", show(other))),
            }
        }
        Ok(())
    }

    pub fn object(&self, tys: &[Ty], shape: &ObjShape, place: &str, path: &str) -> R {
        if self.aspects.naming {
            match tys {
                [Ty::Name(n, _)] if n == path => {}
                _ => {
                    return Err(format!(
                        "{place}: typed `{}` instead of `{path}`",
                        tys.iter().map(show).collect::<Vec<_>>().join(" | ")
                    ))
                }
            }
        }
        let mut alts = Vec::new();
        self.alternatives(tys, place, &mut alts, 0)?;
        let matches = |alt: &(Option<String>, Vec<TsProp>), t: &str| -> R {
            let alt_path = alt.0.clone().unwrap_or_else(|| path.to_string());
            if self.aspects.naming {
                if alt.0.is_none() {
                    return Err(format!("{place}: an alternative without a name"));
                }
                let single = alts.len() == 1 && alt_path == path;
                let ok = single
                    || alt_path == format!("{path}_{t}")
                    || alt_path == format!("{path}_$$other");
                if !ok {
                    return Err(format!("{place}: `{alt_path}` is no name for `{t}` at `{path}`"));
                }
            }
            self.props(&alt.1, &shape.alts[t], t, &format!("{place} on {t}"), &alt_path)
        };
        for t in shape.alts.keys() {
            let mut errors = Vec::new();
            let mut found = false;
            for alt in &alts {
                match matches(alt, t) {
                    Ok(()) => {
                        found = true;
                        break;
                    }
                    Err(e) => errors.push(e),
                }
            }
            if !found {
                return Err(format!(
                    "{place}: no alternative for object type `{t}`: {}",
                    errors.join("; or: ")
                ));
            }
        }
        for alt in &alts {
            // Every literal of a type name stands for an object type that may occur
            let mut literals: Option<BTreeSet<String>> = None;
            for p in &alt.1 {
                let is_type_name = shape
                    .alts
                    .values()
                    .any(|props| matches!(props.get(&p.name), Some(Prop { shape: Shape::TypeName, .. })));
                if !is_type_name {
                    continue;
                }
                let parts = unwrap_all(&p.ty);
                let set: Option<BTreeSet<String>> = parts
                    .iter()
                    .map(|t| match t {
                        Ty::Lit(s) => Some(s.clone()),
                        _ => None,
                    })
                    .collect();
                if let Some(set) = set {
                    literals = Some(set);
                }
            }
            match literals {
                Some(set) => {
                    for t in &set {
                        if !shape.alts.contains_key(t) {
                            return Err(format!("{place}: `{t}` cannot occur here, but a type name says so"));
                        }
                        matches(alt, t).map_err(|e| format!("alternative naming `{t}`: {e}"))?;
                    }
                }
                None => {
                    if !shape.alts.keys().any(|t| matches(alt, t).is_ok()) {
                        return Err(format!(
                            "{place}: the alternative `{}` fits no object type",
                            show(&Ty::Obj(alt.1.clone()))
                        ));
                    }
                }
            }
        }
        if self.aspects.naming && alts.len() > 1 {
            // An alternative named after a type is for that type, the rest is for all others
            let names: BTreeSet<String> = alts.iter().filter_map(|a| a.0.clone()).collect();
            if names.len() != alts.len() {
                return Err(format!("{place}: alternatives share a name"));
            }
            for t in shape.alts.keys() {
                let own = format!("{path}_{t}");
                let wanted = if names.contains(&own) { own } else { format!("{path}_$$other") };
                match alts.iter().find(|a| a.0.as_deref() == Some(&wanted)) {
                    Some(alt) => matches(alt, t)?,
                    None => return Err(format!("{place}: no type `{path}_{t}` nor `{path}_$$other` for `{t}`")),
                }
            }
        }
        Ok(())
    }

    fn props(&self, props: &[TsProp], expected: &BTreeMap<String, Prop>, runtime: &str, place: &str, path: &str) -> R {
        let mut names: Vec<&str> = props.iter().map(|p| p.name.as_str()).collect();
        names.sort_unstable();
        let wanted: Vec<&str> = expected.keys().map(|k| k.as_str()).collect();
        if names != wanted {
            return Err(format!("{place}: keys {names:?} instead of {wanted:?}"));
        }
        for p in props {
            let e = &expected[&p.name];
            let here = format!("{place} . {}", p.name);
            if self.aspects.wrappers {
                if p.optional {
                    return Err(format!("{here}: optional"));
                }
                if p.readonly == self.config.mutable {
                    return Err(format!("{here}: readonly is {}", p.readonly));
                }
            }
            let rest = if self.aspects.wrappers {
                peel(&p.ty, &e.ty, &here)?
            } else {
                unwrap_all(&p.ty)
            };
            match &e.shape {
                Shape::TypeName => {
                    let named = rest.iter().any(|t| matches!(t, Ty::Lit(s) if s == runtime));
                    if !named || rest.iter().any(|t| !matches!(t, Ty::Lit(_))) {
                        return Err(format!("{here}: `{}` does not name `{runtime}`", show(&p.ty)));
                    }
                }
                Shape::Leaf(name) => {
                    let want = self.config.leaf(self.schema, name);
                    let ok = matches!(rest.as_slice(), [Ty::Name(n, a)] if *n == want && a.is_empty());
                    if !ok && (self.aspects.wrappers || rest.len() != 1 || !matches!(rest[0], Ty::Name(..))) {
                        return Err(format!("{here}: `{}` instead of `{want}`", show(&p.ty)));
                    }
                }
                Shape::Obj(o) => {
                    self.object(&rest, o, &here, &format!("{path}_{}", p.name))?;
                }
            }
        }
        Ok(())
    }

    /// The result type of a document
    pub fn document(&self, main: &str, shape: &ObjShape) -> R {
        if self.module.type_named(main).is_none() {
            return Err(format!("no type `{main}`"));
        }
        self.object(&[Ty::Name(main.to_string(), Vec::new())], shape, main, main)
    }

    /// The members of an input object, or the variables of an operation
    pub fn inputs(&self, ty: &Ty, fields: &[(String, TypeRef)], place: &str) -> R {
        let Ty::Obj(props) = ty else {
            return Err(format!("{place}: not an object"));
        };
        let mut names: Vec<&str> = props.iter().map(|p| p.name.as_str()).collect();
        names.sort_unstable();
        let mut wanted: Vec<&str> = fields.iter().map(|f| f.0.as_str()).collect();
        wanted.sort_unstable();
        if names != wanted {
            return Err(format!("{place}: members {names:?} instead of {wanted:?}"));
        }
        for p in props {
            let expected = &fields.iter().find(|f| f.0 == p.name).unwrap().1;
            let here = format!("{place} . {}", p.name);
            if p.optional == expected.is_non_null() {
                return Err(format!(
                    "{here}: declared {}, but {}",
                    expected.gql(),
                    if p.optional { "optional" } else { "not optional" }
                ));
            }
            let rest = peel(&p.ty, expected, &here)?;
            let want = self.config.leaf(self.schema, expected.base());
            if !matches!(rest.as_slice(), [Ty::Name(n, a)] if *n == want && a.is_empty()) {
                return Err(format!("{here}: `{}` instead of `{want}`", show(&p.ty)));
            }
        }
        Ok(())
    }

    pub fn global(&self, decl: &Decl) -> R {
        match decl {
            Decl::Enum { name, members, .. } => {
                let Some(t) = self.schema.get(name).filter(|t| t.kind == Kind::Enum) else {
                    return Err(format!("`{name}` is not an enum of the schema"));
                };
                let mut got: Vec<(String, String)> = members.clone();
                got.sort();
                let mut want: Vec<(String, String)> =
                    t.values.iter().map(|v| (v.clone(), v.clone())).collect();
                want.sort();
                if got != want {
                    return Err(format!("enum {name}: members {got:?} instead of {want:?}"));
                }
                Ok(())
            }
            Decl::Type { name, ty, .. } => {
                let Some(t) = self.schema.get(name).filter(|t| t.kind == Kind::Input) else {
                    return Err(format!("`{name}` is not an input object of the schema"));
                };
                let fields: Vec<(String, TypeRef)> =
                    t.fields.iter().map(|f| (f.name.clone(), f.ty.clone())).collect();
                self.inputs(ty, &fields, name)
            }
            Decl::Const { name, .. } => Err(format!("unexpected constant {name} in the globals module")),
        }
    }
}
