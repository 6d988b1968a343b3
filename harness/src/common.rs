//! What checks share: projects on disk, running the compiler on them, and parsed results.

use crate::diag::{self, Report};
use crate::doc::{gen_layout, print_doc, response_size, Doc, DocOptions, Fragments, Gen, Layout, Printed};
use crate::engine::{inconclusive, violation, Case, Stop};
use crate::model::{self, Config, ObjShape};
use crate::run::{self, expect_clean, Invocation, Ran};
use crate::schema::{gen_schema, Schema, SchemaOptions};
use crate::tape::Tape;
use crate::ts;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone, Default)]
pub struct Project {
    pub schema: Schema,
    pub docs: Vec<Doc>,
    pub config: Config,
    pub printed: Vec<Printed>,
    pub schema_text: String,
}

impl Project {
    pub fn fragments(&self) -> Fragments<'_> {
        fragments(&self.docs)
    }
    pub fn shape(&self, i: usize) -> ObjShape {
        model::doc_shape(&self.schema, &self.fragments(), &self.docs[i])
    }
    pub fn print(&mut self, tape: &mut Tape<'_>) {
        self.printed = self
            .docs
            .iter()
            .map(|d| {
                let layout = gen_layout(tape);
                print_doc(tape, d, layout)
            })
            .collect();
    }
    pub fn print_pretty(&mut self) {
        self.printed = self
            .docs
            .iter()
            .map(|d| print_doc(&mut Tape::new(&[]), d, Layout::Pretty))
            .collect();
    }
    /// Writes schema and documents below `root`
    pub fn write(&self, root: &Path) -> Result<(), Stop> {
        mkdir(root)?;
        run::write_file(&root.join("schema.json"), &self.schema_text)?;
        for (d, p) in self.docs.iter().zip(&self.printed) {
            run::write_file(&root.join(&d.path), &p.text)?;
        }
        Ok(())
    }
    pub fn note(&self, case: &mut Case<'_>) {
        case.note("schema", self.schema.sdl());
        case.note("options", self.config.args().join(" "));
        for (d, p) in self.docs.iter().zip(&self.printed) {
            case.note(d.path.clone(), p.text.clone());
        }
    }
    pub fn invocation(&self, root: &Path) -> Invocation {
        let mut i = Invocation::default();
        i.args = self.config.args().into_iter().map(Into::into).collect();
        i.args.push(root.into());
        i.cwd = root.parent().map(|p| p.to_path_buf());
        i
    }
    pub fn globals_path(&self) -> String {
        self.config.globals_file()
    }
    /// Names scalars are written as when custom scalars are used
    pub fn scalar_names(&self) -> BTreeSet<String> {
        if !self.config.custom_scalars {
            return BTreeSet::new();
        }
        model::custom_scalars(&self.schema)
            .iter()
            .map(|s| self.config.scalar(s))
            .collect()
    }
    /// Whether the generated names of a document could clash
    pub fn may_collide(&self, i: usize) -> bool {
        let mut others: BTreeSet<String> = self.scalar_names();
        others.extend(self.schema.names_of(crate::schema::Kind::Enum));
        others.extend(self.schema.names_of(crate::schema::Kind::Input));
        others.insert(format!("{}Variables", self.docs[i].main_name()));
        others.extend(NODE_TYPES.iter().map(|s| s.to_string()));
        model::may_collide(self.docs[i].main_name(), &self.shape(i), &others)
    }
}

pub const NODE_TYPES: [&str; 4] = [
    "QueryDocumentNode",
    "MutationDocumentNode",
    "SubscriptionDocumentNode",
    "FragmentDocumentNode",
];

pub fn fragments(docs: &[Doc]) -> Fragments<'_> {
    docs.iter()
        .filter(|d| d.is_fragment())
        .map(|d| (d.main_name().to_string(), d))
        .collect()
}

pub fn mkdir(p: &Path) -> Result<(), Stop> {
    match std::fs::create_dir_all(p) {
        Ok(()) => Ok(()),
        Err(e) => inconclusive(format!("mkdir {}: {e}", p.display())),
    }
}

/// Options that change how types are written
pub fn gen_config(tape: &mut Tape<'_>) -> Config {
    let mut c = Config::default();
    if tape.chance(50) {
        c.custom_scalars = true;
        if tape.chance(50) {
            c.scalar_prefix = Some(tape.pick(&["GQL", "Scalar_", "$", ""]).to_string());
        }
    }
    c.mutable = tape.chance(30);
    if tape.chance(25) {
        c.prefix = Some(tape.pick(&["@/", "~/", "root:", "@", ""]).to_string());
    }
    if tape.chance(25) {
        c.globals = Some(match &c.prefix {
            Some(p) if tape.chance(50) => format!("{p}my-globals"),
            Some(p) if !p.contains('/') && tape.chance(20) => format!("{p}{p}my-globals"),
            _ => tape
                .pick(&["globals", "types", "my-globals.d.ts", "gen-globals.ts", "globalts", ".globals"])
                .to_string(),
        });
    }
    if tape.chance(20) {
        c.node_module = Some(tape.pick(&["my-typenode", "@scope/nodes/x", "./nodes"]).to_string());
    }
    if tape.chance(40) {
        c.threads = Some(tape.range(1, 8));
    }
    c
}

pub struct ProjectOptions {
    pub schema: SchemaOptions,
    pub docs: DocOptions,
    pub config: bool,
    /// Chance in percent that there is much more of something
    pub large: u32,
}

impl Default for ProjectOptions {
    fn default() -> Self {
        ProjectOptions {
            schema: SchemaOptions::default(),
            docs: DocOptions::default(),
            config: true,
            large: 2,
        }
    }
}

/// Much more of one or two things, to find limits. A project like this takes many more decisions
/// than a tape has, so they are all derived from one.
fn enlarge(tape: &mut Tape<'_>, schema: &mut SchemaOptions, docs: &mut DocOptions) {
    for _ in 0..tape.range(1, 2) {
        match tape.below(9) {
            0 => schema.max_lists = 5 + tape.below(5),
            1 => {
                schema.more.objects = tape.range(8, 30);
                schema.more.members = tape.range(4, 30);
                docs.inlines = 45;
                docs.budget = 60;
            }
            2 => {
                schema.more.fields = tape.range(8, 40);
                docs.width = 60;
                docs.budget = 120;
            }
            3 => schema.more.values = tape.range(8, 40),
            4 => schema.more.inputs = tape.range(6, 30),
            5 => docs.max_variables = 20,
            6 => docs.fragments = (5, 16),
            7 => docs.operations = (4, 12),
            _ => {
                docs.depth = tape.range(6, 14);
                docs.width = 2;
                docs.budget = 60;
            }
        }
    }
}

fn gen_parts(tape: &mut Tape<'_>, schema_options: &SchemaOptions, doc_options: &DocOptions) -> (Schema, Vec<Doc>) {
    let schema = gen_schema(tape, schema_options);
    let docs = Gen::new(&schema, doc_options).project(tape);
    (schema, docs)
}

/// Types grow with the product of the alternatives on the way, which is exponential in the depth
const MAX_RESPONSE: f64 = 20_000.0;

pub fn gen_project(tape: &mut Tape<'_>, options: &ProjectOptions) -> Project {
    let config = if options.config {
        gen_config(tape)
    } else {
        Config::default()
    };
    let mut schema_options = options.schema.clone();
    let mut doc_options = options.docs.clone();
    doc_options.prefix = config.prefix.clone();
    if tape.chance(15) {
        schema_options.underscores = true;
        doc_options.underscores = true;
    }
    let mut parts = None;
    if tape.chance(options.large) {
        let decisions = Tape::derived(tape.raw(), 20_000);
        let mut tape = Tape::new(&decisions);
        let (mut schema_options, mut doc_options) = (schema_options.clone(), doc_options.clone());
        enlarge(&mut tape, &mut schema_options, &mut doc_options);
        parts = Some(gen_parts(&mut tape, &schema_options, &doc_options));
    }
    let small_enough = |parts: &(Schema, Vec<Doc>)| response_size(&parts.0, &parts.1) <= MAX_RESPONSE;
    let mut parts = parts.filter(small_enough);
    while parts.is_none() {
        parts = Some(gen_parts(tape, &schema_options, &doc_options)).filter(small_enough);
        doc_options.depth = doc_options.depth.saturating_sub(1);
    }
    let (schema, docs) = parts.unwrap();
    let schema_text = schema.json().to_string();
    let mut config = config;
    let dirs: Vec<&str> = docs.iter().filter_map(|d| d.path.rsplit_once('/')).map(|(dir, _)| dir).collect();
    if options.config && !dirs.is_empty() && tape.chance(6) {
        let prefix = config.prefix.as_deref().filter(|_| tape.chance(50)).unwrap_or("");
        config.globals = Some(format!("{prefix}{}/types", tape.pick(&dirs)));
    }
    let mut p = Project {
        schema,
        docs,
        config,
        printed: Vec::new(),
        schema_text,
    };
    p.print(tape);
    p
}

pub struct Compiled {
    pub ran: Ran,
    pub report: Report,
    /// Every generated file, by path relative to the root
    pub files: BTreeMap<String, String>,
    pub root: PathBuf,
}

impl Compiled {
    pub fn module(&self, path: &str) -> Result<ts::Module, Stop> {
        match self.files.get(path) {
            None => violation(format!("{path} is missing; {}", self.ran.describe())),
            Some(text) => match ts::parse(text) {
                Ok(m) => Ok(m),
                Err(e) => violation(format!("{path} is malformed: {e}\n{text}")),
            },
        }
    }
}

/// Runs the compiler and reads what it printed and wrote
pub fn compile(case: &mut Case<'_>, project: &Project, root: &Path) -> Result<Compiled, Stop> {
    let invocation = project.invocation(root);
    compile_with(case, &invocation, root, &project.globals_path())
}

pub fn compile_with(
    case: &mut Case<'_>,
    invocation: &Invocation,
    root: &Path,
    globals: &str,
) -> Result<Compiled, Stop> {
    case.stats.runs += 1;
    let ran = run::run(invocation)?;
    expect_clean(&ran)?;
    let report = match diag::parse(&ran.out()) {
        Ok(r) => r,
        Err(e) => return violation(format!("{e}; {}", ran.describe())),
    };
    let files = run::outputs(root, globals);
    Ok(Compiled {
        ran,
        report,
        files,
        root: root.to_path_buf(),
    })
}

/// Writes and compiles a project that has to be accepted
pub fn accept(case: &mut Case<'_>, project: &Project) -> Result<Compiled, Stop> {
    let root = case.dir.join("root");
    project.write(&root)?;
    let compiled = compile(case, project, &root)?;
    expect_accepted(&compiled)?;
    Ok(compiled)
}

pub fn expect_accepted(compiled: &Compiled) -> Result<(), Stop> {
    if compiled.ran.code != Some(0) || !compiled.report.error_list().is_empty() {
        return violation(format!("a valid project is rejected: {}", compiled.ran.describe()));
    }
    Ok(())
}

pub fn wrong<T>(what: Result<T, String>, context: &str) -> Result<T, Stop> {
    what.map_err(|e| Stop::Violation(format!("{e}\n{context}")))
}
