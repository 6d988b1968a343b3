//! P01, P02, P03, P04, P22: generated types against the reference model.

use crate::common::*;
use crate::engine::{violation, Case, Check, Outcome, Stop};
use crate::model::{self, ObjShape, Shape};
use crate::schema::{Kind, SchemaOptions, TypeRef};
use crate::tape::Tape;
use crate::ts::{self, Aspects, Comparer, Decl, Ty};
use std::collections::{BTreeMap, BTreeSet};

/// Features of a result shape, for classification
#[derive(Default)]
struct Features {
    polymorphic: bool,
    differing: bool,
    deep_lists: bool,
    custom: bool,
    leaf_lists: bool,
    enums: bool,
    covariant: bool,
}

fn features(project: &Project, shape: &ObjShape, f: &mut Features) {
    if shape.alts.len() > 1 {
        f.polymorphic = true;
        let sets: BTreeSet<Vec<&String>> = shape.alts.values().map(|p| p.keys().collect()).collect();
        f.differing |= sets.len() > 1;
    }
    for props in shape.alts.values() {
        for p in props.values() {
            f.covariant |= p.narrowed;
            f.deep_lists |= p.ty.lists() > 1;
            f.leaf_lists |= p.ty.lists() > 0;
            match &p.shape {
                Shape::Obj(o) => features(project, o, f),
                Shape::Leaf(n) => {
                    f.enums |= project.schema.kind(n) == Kind::Enum;
                    f.custom |= project.schema.kind(n) == Kind::Scalar
                        && !crate::schema::BUILTIN.contains(&n.as_str());
                }
                Shape::TypeName => {}
            }
        }
    }
}

fn check_shapes(
    case: &mut Case<'_>,
    project: &Project,
    aspects: Aspects,
    interesting: fn(&Features) -> bool,
) -> Outcome {
    project.note(case);
    let compiled = accept(case, project)?;
    let mut any = false;
    for (i, doc) in project.docs.iter().enumerate() {
        let module = compiled.module(&doc.output())?;
        if project.may_collide(i) {
            case.exclude("two places of a document may get the same type name");
            continue;
        }
        let shape = project.shape(i);
        let mut f = Features::default();
        features(project, &shape, &mut f);
        case.label_if(f.polymorphic, "several object types possible");
        case.label_if(f.differing, "alternatives with different keys");
        case.label_if(f.covariant, "covariant implementation narrower than interface");
        case.label_if(f.deep_lists, "nested lists");
        case.label_if(f.custom, "custom scalar");
        case.label_if(f.enums, "enum");
        case.label(match doc.kind {
            crate::doc::DocKind::Query => "query",
            crate::doc::DocKind::Mutation => "mutation",
            crate::doc::DocKind::Subscription => "subscription",
            crate::doc::DocKind::Fragment(_) => "fragment",
        });
        case.label_if(!crate::doc::spread_names(&doc.sels).is_empty(), "with spreads");
        any |= interesting(&f);
        let comparer = Comparer {
            schema: &project.schema,
            config: &project.config,
            module: &module,
            aspects,
        };
        wrong(
            comparer.document(doc.main_name(), &shape),
            &format!("{}:\n{}", doc.output(), compiled.files[&doc.output()]),
        )?;
    }
    if any {
        case.nontrivial();
    }
    Ok(())
}

fn p01(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.large = 4;
    options.schema.big = tape.chance(30);
    options.docs.fragments = (0, 4);
    options.docs.inlines = 30;
    let project = gen_project(tape, &options);
    check_shapes(case, &project, ts::KEYS, |f| f.differing || f.polymorphic)
}

fn p02(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.large = 4;
    options.schema.max_lists = 4;
    options.docs.operations = (1, 3);
    let project = gen_project(tape, &options);
    check_shapes(case, &project, ts::WRAPPERS, |f| f.deep_lists || f.leaf_lists || f.enums || f.custom)
}

fn p22(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.large = 4;
    options.docs.inlines = 30;
    options.docs.depth = 4;
    let project = gen_project(tape, &options);
    check_shapes(case, &project, ts::NAMING, |f| f.polymorphic)?;
    // Everything referred to exists, once; everything exported is used
    let globals_module = project.config.globals_module();
    let node_module = project.config.node_module_name();
    for (i, doc) in project.docs.iter().enumerate() {
        if project.may_collide(i) {
            continue;
        }
        let text = std::fs::read_to_string(case.dir.join("root").join(doc.output())).unwrap_or_default();
        let module = wrong(ts::parse(&text), &text)?;
        let mut defined: BTreeMap<String, usize> = BTreeMap::new();
        let imported: Vec<String> = module.imports.iter().flat_map(|(n, _)| n.clone()).collect();
        for name in module.type_names().into_iter().chain(imported) {
            *defined.entry(name).or_default() += 1;
        }
        if let Some((name, n)) = defined.iter().find(|(_, n)| **n > 1) {
            return violation(format!("{}: `{name}` is defined {n} times\n{text}", doc.output()));
        }
        for (_, from) in &module.imports {
            if *from != globals_module && *from != node_module {
                return violation(format!("{}: unexpected import from {from:?}\n{text}", doc.output()));
            }
        }
        let ambient: BTreeSet<String> = project
            .scalar_names()
            .into_iter()
            .chain(["string", "number", "boolean", "any", "null", "never"].map(String::from))
            .collect();
        for name in module.mentioned() {
            if !defined.contains_key(&name) && !ambient.contains(&name) {
                return violation(format!("{}: `{name}` is nowhere defined\n{text}", doc.output()));
            }
        }
        let mut reached: BTreeSet<String> = BTreeSet::new();
        let variables = format!("{}Variables", doc.main_name());
        let mut todo = vec![doc.main_name().to_string(), variables];
        while let Some(name) = todo.pop() {
            if !reached.insert(name.clone()) {
                continue;
            }
            if let Some(ty) = module.type_named(&name) {
                mention(ty, &mut todo);
            }
        }
        for d in &module.decls {
            if let Decl::Type { name, exported, .. } = d {
                if !exported {
                    return violation(format!("{}: `{name}` is not exported\n{text}", doc.output()));
                }
                if !reached.contains(name) {
                    return violation(format!("{}: `{name}` is exported but not used\n{text}", doc.output()));
                }
            }
        }
    }
    Ok(())
}

fn mention(ty: &Ty, out: &mut Vec<String>) {
    match ty {
        Ty::Name(n, args) => {
            out.push(n.clone());
            args.iter().for_each(|a| mention(a, out));
        }
        Ty::Array(t) => mention(t, out),
        Ty::Union(ts) => ts.iter().for_each(|t| mention(t, out)),
        Ty::Obj(props) => props.iter().for_each(|p| mention(&p.ty, out)),
        Ty::Lit(_) => {}
    }
}

/// The type arguments of the exported node
pub fn node_annotation(module: &ts::Module) -> Result<(String, Vec<Ty>), String> {
    let name = module.default_export.clone().ok_or("no default export")?;
    let consts: Vec<&Ty> = module
        .decls
        .iter()
        .filter_map(|d| match d {
            Decl::Const { name: n, ty } if *n == name => Some(ty),
            _ => None,
        })
        .collect();
    match consts.as_slice() {
        [Ty::Name(node, args)] => Ok((node.clone(), args.clone())),
        _ => Err(format!("the default export `{name}` is not one annotated constant")),
    }
}

fn p03(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.large = 4;
    options.docs.operations = (1, 4);
    options.docs.fragments = (0, 1);
    options.docs.defaults = true;
    options.docs.depth = 1;
    options.docs.width = 2;
    let project = gen_project(tape, &options);
    project.note(case);
    let compiled = accept(case, &project)?;
    for doc in &project.docs {
        let module = compiled.module(&doc.output())?;
        let text = &compiled.files[&doc.output()];
        let name = format!("{}Variables", doc.main_name());
        let found = module.type_named(&name);
        let (node, args) = wrong(node_annotation(&module), text)?;
        let annotated = args.get(1).map(ts::show);
        if doc.is_fragment() {
            if found.is_some() || args.len() != 1 {
                return violation(format!("a fragment takes variables: {node} {args:?}\n{text}"));
            }
            continue;
        }
        if doc.vars.is_empty() {
            case.label("operation without variables");
            if found.is_some() {
                return violation(format!("`{name}` is exported without any variable\n{text}"));
            }
            if annotated.as_deref() != Some("never") {
                return violation(format!("annotated with {annotated:?} instead of never\n{text}"));
            }
            continue;
        }
        case.label("operation with variables");
        case.nontrivial();
        let Some(ty) = found else {
            return violation(format!("`{name}` is not exported\n{text}"));
        };
        if annotated.as_deref() != Some(name.as_str()) {
            return violation(format!("annotated with {annotated:?} instead of {name}\n{text}"));
        }
        let exported = module
            .decls
            .iter()
            .any(|d| matches!(d, Decl::Type { name: n, exported: true, .. } if *n == name));
        if !exported {
            return violation(format!("`{name}` is not exported\n{text}"));
        }
        let fields: Vec<(String, TypeRef)> =
            doc.vars.iter().map(|v| (v.name.clone(), v.ty.clone())).collect();
        for v in &doc.vars {
            case.label_if(v.default.is_some(), "variable with a default");
            case.label_if(v.ty.lists() > 0, "list variable");
            case.label_if(v.ty.is_non_null(), "non-null variable");
            case.label(match project.schema.kind(v.ty.base()) {
                Kind::Input => "input object variable",
                Kind::Enum => "enum variable",
                _ => "scalar variable",
            });
        }
        let comparer = Comparer {
            schema: &project.schema,
            config: &project.config,
            module: &module,
            aspects: ts::WRAPPERS,
        };
        wrong(comparer.inputs(ty, &fields, &name), text)?;
    }
    Ok(())
}

fn p04(tape: &mut Tape<'_>, case: &mut Case<'_>) -> Outcome {
    let mut options = ProjectOptions::default();
    options.large = 4;
    options.schema = SchemaOptions {
        big: true,
        ..SchemaOptions::default()
    };
    options.docs.operations = (1, 4);
    options.docs.fragments = (0, 3);
    options.docs.depth = 2;
    if tape.chance(12) {
        options.docs.variables = false;
    }
    let project = gen_project(tape, &options);
    project.note(case);
    let compiled = accept(case, &project)?;
    check_globals(case, &project, &compiled)
}

pub fn check_globals(case: &mut Case<'_>, project: &Project, compiled: &Compiled) -> Outcome {
    let schema = &project.schema;
    let module_name = project.config.globals_module();
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (i, doc) in project.docs.iter().enumerate() {
        let module = compiled.module(&doc.output())?;
        let text = &compiled.files[&doc.output()];
        let shape = project.shape(i);
        let mut must = model::variable_globals(schema, doc);
        model::enums_of(schema, &shape, &mut must);
        let lists: Vec<&Vec<String>> = module
            .imports
            .iter()
            .filter(|(_, from)| *from == module_name)
            .map(|(n, _)| n)
            .collect();
        let imported = module.imported_from(&module_name);
        if lists.iter().map(|l| l.len()).sum::<usize>() != imported.len() || lists.iter().any(|l| l.is_empty()) {
            return violation(format!("{}: repeated or empty imports {lists:?}\n{text}", doc.output()));
        }
        let mentioned: BTreeSet<String> = module
            .mentioned()
            .into_iter()
            .filter(|n| matches!(schema.kind(n), Kind::Enum | Kind::Input))
            .filter(|n| module.type_named(n).is_none())
            .collect();
        if imported != mentioned {
            return violation(format!(
                "{}: imports {imported:?} but mentions {mentioned:?}\n{text}",
                doc.output()
            ));
        }
        if must != imported {
            return violation(format!(
                "{}: imports {imported:?}, but {must:?} are used\n{text}",
                doc.output()
            ));
        }
        used.extend(imported);
    }
    let path = project.globals_path();
    let closure = model::closure(schema, &used);
    case.label_if(used.is_empty(), "no globals");
    case.label_if(closure.len() > used.len(), "transitive globals");
    let Some(text) = compiled.files.get(&path) else {
        if used.is_empty() {
            return Ok(());
        }
        return violation(format!("no globals module at {path}, but {used:?} are used"));
    };
    if used.is_empty() {
        return violation(format!("globals module without any use\n{text}"));
    }
    case.nontrivial();
    let module = wrong(ts::parse(text), text)?;
    let mut names = module.type_names();
    names.sort_unstable();
    let wanted: Vec<String> = closure.into_iter().collect();
    if names != wanted || !module.imports.is_empty() || module.default_export.is_some() {
        return violation(format!("the globals module defines {names:?} instead of {wanted:?}\n{text}"));
    }
    let comparer = Comparer {
        schema,
        config: &project.config,
        module: &module,
        aspects: ts::WRAPPERS,
    };
    for d in &module.decls {
        let exported = match d {
            Decl::Type { exported, .. } | Decl::Enum { exported, .. } => *exported,
            Decl::Const { .. } => false,
        };
        if !exported {
            return violation(format!("the globals module keeps {d:?} to itself\n{text}"));
        }
        if let Decl::Type { ty: Ty::Obj(props), name, .. } = d {
            let recursive = props.iter().any(|p| ts::show(&p.ty).contains(name.as_str()));
            case.label_if(recursive, "recursive input object");
        }
        wrong(comparer.global(d), text)?;
    }
    Ok(())
}

/// The two places of `a { b { .. } }` and `a_b { .. }` get the same name
fn name_collision(case: &mut Case<'_>) -> Result<bool, Stop> {
    let schema = r#"{"data":{"__schema":{"types":[
      {"kind":"OBJECT","name":"Query","fields":[
        {"name":"a","type":{"kind":"OBJECT","name":"T"}},
        {"name":"a_b","type":{"kind":"OBJECT","name":"T"}}]},
      {"kind":"OBJECT","name":"T","fields":[
        {"name":"b","type":{"kind":"OBJECT","name":"T"}},
        {"name":"x","type":{"kind":"SCALAR","name":"Int"}}]},
      {"kind":"SCALAR","name":"Int"}]}}}"#;
    let root = case.dir.join("root");
    crate::run::write_file(&root.join("schema.json"), schema)?;
    crate::run::write_file(&root.join("q.graphql"), "query Q { a { b { x } } a_b { x } }\n")?;
    let mut invocation = crate::run::Invocation::default();
    invocation.args.push(root.clone().into());
    let compiled = compile_with(case, &invocation, &root, "graphql-globals.ts")?;
    let module = compiled.module("q.graphql.d.ts")?;
    let count = module.type_names().iter().filter(|n| *n == "Q_a_b").count();
    Ok(count > 1)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "P01",
            rule: "random schema (objects, interface hierarchies, unions, covariant implementations), random valid documents with fragments, inline fragments, aliases and merges; non-trivial: some position of the response allows several object types",
            quick_cases: 24_000,
            thorough_cases: 120_000,
            tape: (20, 1500),
            run: p01,
            ..Check::base()
        },
        Check {
            id: "P02",
            rule: "as P01 with up to four list levels and all type options; non-trivial: a list, an enum or a custom scalar is selected",
            quick_cases: 20_000,
            thorough_cases: 120_000,
            tape: (20, 1500),
            run: p02,
            ..Check::base()
        },
        Check {
            id: "P03",
            rule: "random operations with variables of all kinds, wrappers up to one list level, defaults; non-trivial: an operation declares variables",
            quick_cases: 20_000,
            thorough_cases: 120_000,
            tape: (20, 1000),
            run: p03,
            ..Check::base()
        },
        Check {
            id: "P04",
            rule: "random sets of documents over schemas with recursive input objects; non-trivial: some global type is used",
            quick_cases: 24_000,
            thorough_cases: 120_000,
            tape: (20, 1500),
            run: p04,
            ..Check::base()
        },
        Check {
            id: "P22",
            rule: "as P01, deeper, with names of types compared to the path of response keys; non-trivial: several object types possible at some position",
            quick_cases: 20_000,
            thorough_cases: 120_000,
            tape: (20, 1500),
            run: p22,
            known: &[("generated type names of different places collide (keys joined with underscores)", name_collision)],
            ..Check::base()
        },
    ]
}
