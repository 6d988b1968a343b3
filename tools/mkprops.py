#!/usr/bin/env python3
# Single source of the property texts; writes /verif/properties.jsonl
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

T="src/typescript.rs"; IR="src/graphql/ir.rs"; G="src/graphql.rs"; C="src/cli.rs"; W="src/worker_pool.rs"; F="src/graphql/schema/field.rs"; S="src/graphql/schema.rs"; V="src/graphql/variable.rs"; J="src/graphql/schema/json.rs"

p("P01","Result types list exactly the response keys GraphQL execution would produce",
 "For every valid schema and valid operation (on the root type the schema names) or fragment, the generated type has, for each object type that the schema allows at a position of the response, an alternative with exactly the response keys (aliases) that GraphQL field collection yields for that object type there, recursively: repeated fields are merged, type-conditioned selections count only for the object types they apply to, and nothing is missing or added. `__typename` is typed as the literal name(s) of exactly the object types its alternative stands for, and no alternative describes an object type the schema rules out there.",
 ["inputs","programs"],"every introspection schema (objects, interfaces, interface hierarchies, unions, covariant fields) and every valid document over it (aliases, merging, nested inline fragments, imported fragments)",
 "The fixtures sample some thirty hand-written documents over one schema; interactions of merging, type conditions, unions and the grouping of alternatives are combinatorial.",
 [IR,T],[("field collection per concrete object type","src/graphql/ir.rs collect_fields_from_selection_set, ComplexTraversal::extend_from"),("grouping of equal alternatives","src/typescript.rs type_definitions_from_complex_field_collection")],
 ["generated .graphql.d.ts files"])
p("P02","Nullability, list nesting and leaf types of result fields are exact",
 "Every property of a generated result type carries exactly the schema's wrappers for that field: non-null or `| null` at every list level, any nesting depth, in the right order, and never optional. Leaf types are exact: String and ID become string, Int and Float number, Boolean boolean, enums the global enum of that name, and custom scalars `any`, or their (prefixed) own name when that is configured; properties are readonly unless that is disabled.",
 ["inputs","configurations"],"every wrapper combination of non-null and list to any depth on every kind of field type, under every scalar and readonly configuration",
 "The fixture schema has few wrapper combinations and no deep nesting; the translation is a small state machine whose states the fixtures do not all visit.",
 [F,T,"src/typescript/field.rs"],[("wrapper state machine","src/graphql/schema/field.rs ModifierBuilder"),("wrapper printing","src/typescript.rs prop_type_def")],["generated .graphql.d.ts files"])
p("P03","Operation variables are typed exactly as declared",
 "An operation that declares variables exports `<Name>Variables` with exactly one property per declared variable, typed by the declared type and wrappers; it is optional exactly when the declared type is nullable, and the document is annotated with that type. An operation without variables exports no such type and is annotated with `never`; fragments take no variables.",
 ["inputs","configurations"],"every operation with any number of variables over all built-in scalars, custom scalars, enums and input objects with every supported wrapper combination, in any declaration order, with or without defaults",
 "A handful of fixtures use variables; combinations of type kind, wrapper and scalar configuration are not covered.",
 [V,T],[("variable unwrapping","src/graphql/variable.rs unwrap_var_def"),("variables type","src/typescript.rs compile_variables_type_definition")],["generated .graphql.d.ts files"])
p("P04","The globals module is exactly the closure of used enums and input objects",
 "After a run the globals module exports exactly the enums and input objects that compiled documents refer to, plus everything those input objects reach transitively (also through cycles), each with exactly its schema values or fields, wrappers, optionality and leaf types; if nothing is used, no module is written. Every document imports from the globals module exactly the global names it mentions.",
 ["inputs","programs","configurations"],"every set of documents and every graph of input objects and enums, including recursive and nested-list input fields",
 "Fixtures use a small acyclic input graph; closure over arbitrary graphs and the union over many documents compiled by many threads is not sampled.",
 [T,W,G],[("closure over input objects","src/typescript.rs global_types_from_names, add_sub_input_objects"),("aggregation over workers","src/worker_pool.rs WorkAggregateResult"),("globals file","src/graphql.rs compile_global_types_file")],["globals module","import lines of generated files"])
p("P05","Imports resolve to the right files, transitively and once, for any import graph",
 "`#import \"path\"` lines at the head of a document (among comments and blank lines) bring the named fragment into scope: a path starting with `.` is relative to the importing file, one starting with the configured prefix is relative to the root directory with the prefix removed, and any other is relative to the root directory; imports of imported files are followed at any depth. Shared, repeated and cyclic imports work and terminate, imports after the first other line are ignored, and a missing file or a non-fragment import is reported at the import line as an error.",
 ["inputs","programs"],"every directory layout and import graph (chains, diamonds, cycles, self imports, parent directories), with and without a configured prefix",
 "Fixtures contain a few acyclic import trees of depth two.",
 [G],[("import scan and recursion","src/graphql.rs add_imported_fragments"),("path resolution","src/graphql.rs get_file_path_of_fragment"),("parsing of imports","src/graphql.rs parse_foreign_fragments")],["generated .graphql.d.ts files","stdout","exit status"],
 state=[("imported contents","text of every file reached through imports, by path","src/graphql.rs add_imported_fragments")])
p("P06","A fragment spread means the same as its selections written in place",
 "Replacing a spread of an imported fragment by an inline fragment with the same type condition and selections leaves the generated types of the document unchanged, at any nesting depth and for fragments that spread further fragments, and splitting a selection set into several inline fragments on the same type does not change them either. Fields that a spread cannot apply to contribute nothing.",
 ["inputs","programs"],"every valid document and every way of moving parts of its selections into (nested) imported fragments",
 "A metamorphic relation between pairs of documents; the fixtures fix single outputs.",
 [IR],[("spread handling","src/graphql/ir.rs collect_fields_from_selection_set, clone_for_type_spread")],["generated .graphql.d.ts files"])
p("P07","Output is a deterministic function of the inputs, independent of order",
 "Two runs over the same inputs write byte-identical files and report the same set of diagnostics, whatever the number of threads, the scheduling, hash seeds or the order in which files were created. Reordering the selections of a document (where repeated fields have one declaration), or the types, fields, enum values and possible types of the schema, changes no generated file, and neither does adding unrelated documents, apart from the globals module.",
 ["inputs","schedules","configurations"],"every workspace, thread count, schedule and permutation of schema and selections",
 "Each fixture is run once with one order; hash-order or scheduling dependence shows only across repetitions.",
 [T,IR,W,G],[("sorting of everything emitted","src/typescript.rs, src/graphql/ir.rs sort_unstable_*")],["generated files","stdout as a multiset"])
p("P08","Every document below the root is compiled exactly once, and the run ends",
 "For any directory tree, number of threads (even if not all can be started) and interleaving of the workers, every regular file with extension `.graphql` at any depth below the root directory is compiled exactly once and its result or errors are reported, no other file is compiled, and the process terminates. No found work is ever lost or done twice, and an unreadable directory is reported as an error without stopping the others.",
 ["schedules","inputs","configurations"],"every tree shape (deep, wide, empty directories, look-alike names), every thread count from 0 (meaning 1) to 64 and every schedule of the worker pool",
 "Tests run tiny directories under one lucky schedule; a lost work item or premature shutdown needs a particular interleaving.",
 [W],[("work queue and termination protocol","src/worker_pool.rs Worker::pop_work"),("directory scan","src/worker_pool.rs Work::run_dir_entry")],["set of generated files","stdout","exit status","schedule points"],
 state=[("work queue","directories and documents still to process","src/worker_pool.rs"),("idle/outstanding counters","whether all work is done","src/worker_pool.rs")],
 hook="schedule points in the worker pool, cfg(qlc_verif)")
p("P09","Errors are isolated per document and decide the exit status",
 "The exit status is 0 exactly when no error was reported and 1 otherwise, and the final summary gives the true numbers of errors and warnings. A document with errors gets no output (a bad import it does not need only adds an error) and is reported with its file name; all other documents and the globals module come out byte-identical to a run without it.",
 ["inputs","histories","configurations"],"every mixture of valid documents, documents with one or many errors of every class, and documents with warnings",
 "Tests look at single failing documents; they do not compare the healthy rest of a mixed tree or count messages.",
 [C,G,W],[("exit code and summary","src/cli.rs print_exit_info"),("per-file results","src/graphql.rs compile_file, src/worker_pool.rs Work::run")],["exit status","stdout","generated files"])
p("P10","Every invalid document is rejected with an accurate diagnostic",
 "A document that selects an unknown field, spreads an unknown or cyclic fragment, omits a required selection set or puts one on a leaf, has an inline fragment without type condition, a variable type that is unknown or not an input type, a list-of-lists variable, an anonymous selection set, several definitions or a syntax error is rejected with a message naming the culprit, however deeply it is nested. The message points at the file, line and column of the culprit and, except for syntax errors, quotes that line verbatim; and for unknown names suggests exactly the in-scope names within edit distance 2.",
 ["inputs","programs"],"every valid document with any number of such mutations applied at any depth, in any layout of whitespace and comments",
 "One fixture per error class at one place; nesting inside fragments, unions, lists and repeated errors is not sampled.",
 [IR,V,G,C],[("validation while collecting","src/graphql/ir.rs insert_field, collect_fields_from_selection_set"),("diagnostic printing","src/cli.rs LocationInformation, similar_help_suggestions")],["stdout","exit status","absence of output"])
p("P11","No input makes the compiler crash or hang",
 "Whatever bytes the documents, the schema file, the configuration file and the command line contain, a run ends by itself with exit status 0 or 1 (2 for command-line misuse), prints nothing but diagnostics, and never aborts with a panic, stack overflow or signal. Recursion in inputs (import cycles, fragment cycles, recursive input objects) and deep but legal nesting are handled.",
 ["inputs"],"every byte string as document, schema, config or import line, including structured mutations of valid ones and recursive structures",
 "Tests feed well-formed or three specific malformed inputs.",
 [G,IR,T,S,F,C],[("error values instead of panics","all parsing code")],["exit status","signal","stderr"])
p("P12","A run only writes its own outputs, and repeats exactly",
 "A run creates or rewrites only `<name>.graphql.d.ts` next to each successfully compiled document and the globals module, and leaves every other file, including sources, schema, config and files outside the root, as it was. A second run reproduces the same bytes, and stale, truncated, longer or foreign contents of an output file never influence the result; whatever was there before, a successfully compiled document's output equals that of a run in a clean tree.",
 ["histories","inputs"],"every workspace with any prior contents of output files and any history of edits and runs",
 "Tests start from clean directories and look only at expected files.",
 [G],[("output paths","src/graphql.rs compile_file, compile_global_types_file")],["complete file tree before and after"])
p("P13","Options mean the same on the command line and in the config file",
 "Each documented option has the same effect given as a command-line flag or as its camelCased key in the JSON config file (default `.qlcrc.json` in the working directory, or the one named by `-c`), and where both give a value the command line wins. A relative `schemaFile` is resolved against the config file's directory, `-s` against the working directory, and without either the schema is `schema.json` in the root directory; an unreadable named config or an invalid one is an error and nothing is compiled.",
 ["configurations","inputs"],"every combination of options split in every way between command line, config file and defaults, from any working directory",
 "Tests set one option at a time, mostly on the command line.",
 [C],[("option merging","src/cli.rs RuntimeConfig::from_cli"),("config file","src/cli.rs ConfigFileMatches::from_file_parse")],["generated files","exit status"])
p("P14","Warnings are complete, accurate and harmless",
 "With deprecation warnings enabled, each selection of a deprecated field written in a document is reported once at its line and column with field and parent type, also inside inline fragments, and not again through documents importing it; without the option there are none. A fragment narrowed to an impossible type where it is written is reported as over-narrowing at its position with the types actually possible there, a possible one never is, and warnings change neither outputs nor the exit status.",
 ["inputs","configurations"],"every valid document over every schema with deprecated fields and every nesting of (im)possible fragments",
 "Fixtures cover two warning cases at fixed positions.",
 [IR,C],[("over-narrowing","src/graphql/ir.rs clone_for_type_spread"),("deprecation","src/graphql/ir.rs insert_field")],["stdout","exit status","generated files"])
p("P15","Schema descriptions and deprecations become faithful, inert doc comments",
 "A selected field, input field or enum that has a description is preceded by a doc comment holding its lines in order, and a deprecated field by one with `@deprecated`; fields without either have no comment. No description text, whatever it contains, can terminate its comment or otherwise change the generated types.",
 ["inputs"],"every description string (multi-line, comment delimiters in any combination, backslashes, unicode, blank) on every documented element",
 "The fixture schema has a few harmless one-line descriptions.",
 [T,F],[("doc comment printing","src/typescript.rs compile_documentation")],["generated files"])
p("P16","Generated modules type-check and accept exactly conforming responses",
 "For every valid schema and document whose names are no keywords or built-in types of TypeScript, the generated modules compile under strict TypeScript, every response a conforming server can return is assignable to the result type, and every valid variables object that supplies all non-null members (lists written as lists, IDs as strings) to the variables type. A response with a wrong leaf type, a null in a non-null place, a missing key, a wrong list nesting or an impossible `__typename` is rejected by the type checker.",
 ["inputs","programs"],"every schema, document, conforming response and single-point corruption of it, judged by the TypeScript compiler",
 "Tests compare text with text; none runs a TypeScript compiler over the output.",
 [T,IR],[("code generation","src/typescript.rs")],["tsc diagnostics"])
p("P17","Documents are typed nodes from which data and variables can be recovered",
 "Each generated module default-exports a constant annotated with the node kind of its document (query, mutation, fragment or subscription; subscriptions of a schema without a subscription type select from the query type and are query nodes) from the configured module, parameterised by its own data type and variables type. With the shipped typed-documentnode module, the data helper yields exactly that data type for every kind, the variables helper exactly the variables type for every kind of operation, and nodes of one kind with different data are not interchangeable.",
 ["inputs","programs","configurations"],"every document kind, name, data and variables type, with default or custom node module",
 "Tests compare the annotation text only; the helper types are never evaluated.",
 [T,"pkg/npm/lib/typed-documentnode.d.ts"],[("annotation","src/typescript.rs compile_ir"),("helper types","pkg/npm/lib/typed-documentnode.d.ts")],["generated files","tsc diagnostics"])
p("P18","Failed or interrupted runs are reported and leave nothing a rerun cannot repair",
 "If reading or writing any file fails or is short during a run, the run still ends, reports an error naming that file and exits 1, without damaging any source file. After a run that failed or was killed at any point, an undisturbed rerun produces exactly the files of a clean run.",
 ["crash_points","fault_sequences"],"every I/O call of a run failing with EIO, ENOSPC, EACCES or EMFILE, every read or write cut short or interrupted, and a kill before every I/O call",
 "Tests inject no faults.",
 [G,W,C,S],[("I/O error reporting","src/graphql.rs read_graphql_file, compile_file; src/cli.rs new_compile_error_from_*")],["exit status","stdout","file tree after the run and after the rerun"])
p("P19","The schema download helper saves the complete response or fails",
 "The helper posts the introspection query as JSON to the given http(s) endpoint and, on a 200 response, saves exactly the body to the named file (default schema.json) and exits 0. On any other status, connection error, response cut short or failure to write it exits non-zero and leaves no partial file; what it requests suffices for the compiler to treat the saved schema like the server's own.",
 ["inputs","fault_sequences"],"every response body, chunking, status code and cut-off point, every schema",
 "There are no tests of the npm package.",
 ["pkg/npm/lib/download.js"],[("request and save","pkg/npm/lib/download.js download")],["exit status","saved file","request seen by the server"])
p("P20","Package installation only installs a verified binary",
 "The install script fetches the release archive for this version and platform, following temporary redirects (302, absolute or relative), and installs the binary only if the archive's SHA-256 equals the pinned checksum. On a mismatch, missing checksum, unsupported platform, error status, endless redirects, stalled or broken transfer, or archive that cannot be unpacked it exits non-zero, installs nothing and leaves no archive behind.",
 ["inputs","fault_sequences"],"every platform, redirect chain, status code, corruption or truncation of the archive and connection fault",
 "There are no tests of the npm package.",
 ["pkg/npm/lib/postinstall.js"],[("download, checksum, untar","pkg/npm/lib/postinstall.js main")],["exit status","bin directory","leftover files"])
p("P21","Only a well-formed schema is used, and only its meaningful content counts",
 "A schema file that is not JSON, lacks the introspection structure, or has a type or field without the information its kind requires (fields, values, possible types, wrapped type, name, known kind) is rejected with one malformed-schema error, exit status 1 and no output written. Content the compiler does not use (unknown keys, arguments, directives, interface lists, extra types, nulls for inapplicable members, formatting) changes nothing.",
 ["inputs"],"every valid introspection document with any such omission or corruption, and every decoration with irrelevant content",
 "Tests have one schema and two malformed ones.",
 [S,F,J],[("schema conversion","src/graphql/schema.rs Type::try_from, Schema::try_from_reader; src/graphql/schema/field.rs FieldType::try_from")],["stdout","exit status","generated files"])
p("P22","Generated type names follow the response path",
 "The main type of a document has the name of its operation or fragment (Query, Mutation or Subscription when anonymous), and every nested composite position exports its own type named by the path of response keys joined with `_`; where alternatives are separate types they are named by that path plus the object type, or `$$other` for those sharing one shape. Every type referred to is exported, defined once or imported, and nothing unused is exported.",
 ["inputs","programs"],"every valid document whose path-derived names are distinct",
 "The fixtures fix the names of a few documents.",
 [T],[("name construction","src/typescript.rs type_definitions_from_complex_field_collection, type_definitions_from_complex_ir")],["generated files"])
p("P23","A release publishes archives, checksums and a package that belong together",
 "For every version and any built binaries, the release scripts upload under the version's tag exactly one archive per supported platform, holding that platform's binary, and the list of their SHA-256 checksums, and publish the npm package with that version and exactly these checksums, so that on every supported platform it installs that platform's binary and exports its path. Versions with -alpha or -beta are marked as such in both places. If a binary, a checksum, the version or an upload is missing or fails, the script fails and publishes nothing further.",
 ["inputs","fault_sequences"],"every version and set of binaries, every supported platform, and a failure at any step",
 "Nothing tests the release scripts; they run only when a release is made.",
 [".circleci/bin/make-github-release.sh",".circleci/bin/make-npm-release.sh",".circleci/bin/build-release-binary.sh","pkg/npm/lib/index.js","pkg/npm/package.json"],[("archives and checksums",".circleci/bin/make-github-release.sh"),("checksums in the package",".circleci/bin/make-npm-release.sh")],["calls of ghr and yarn","uploaded files","published package","installed binary"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.!?](?= [A-Z`]|$)',x["statement"]))
    assert n<=3,(x["id"],n); assert len(x["title"])<=80,x["id"]
