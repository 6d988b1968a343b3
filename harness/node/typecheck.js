// Type checks small programs. One JSON request per line on stdin:
//   {"files": {"/p/a.ts": "text", ...}, "modules": {"name": "/p/file"}, "options": {...}}
// One JSON answer per line on stdout: {"diags": [{"file", "line", "code", "text"}]}
"use strict";
const path = require("path");
const ts = require(process.env.QLC_TYPESCRIPT || "/opt/veriftools/node/node_modules/typescript");
const libDir = path.dirname(ts.getDefaultLibFilePath({}));
const kept = new Map();

function keep(name, text) {
  const old = kept.get(name);
  if (old && old.text === text) return old.file;
  const file = ts.createSourceFile(name, text, ts.ScriptTarget.ES2020, true);
  kept.set(name, { text, file });
  return file;
}

function check(request) {
  const files = request.files;
  const modules = request.modules || {};
  const options = Object.assign(
    {
      strict: true,
      noEmit: true,
      target: ts.ScriptTarget.ES2020,
      module: ts.ModuleKind.ESNext,
      moduleResolution: ts.ModuleResolutionKind.Node10,
      ignoreDeprecations: "5.0",
      lib: ["lib.es5.d.ts"],
      types: [],
      skipLibCheck: false,
      noUncheckedSideEffectImports: true,
    },
    request.options || {}
  );
  const find = (p) => {
    for (const end of ["", ".ts", ".d.ts"]) if (Object.prototype.hasOwnProperty.call(files, p + end)) return p + end;
    return undefined;
  };
  const host = {
    fileExists: (f) => f in files,
    readFile: (f) => files[f],
    getSourceFile(name) {
      if (Object.prototype.hasOwnProperty.call(files, name)) {
        if (request.keep && request.keep.includes(name)) return keep(name, files[name]);
        return ts.createSourceFile(name, files[name], ts.ScriptTarget.ES2020, true);
      }
      if (name.startsWith(libDir)) {
        const text = ts.sys.readFile(name);
        return text === undefined ? undefined : kept.has(name) ? kept.get(name).file : keep(name, text);
      }
      return undefined;
    },
    getDefaultLibFileName: () => path.join(libDir, "lib.es5.d.ts"),
    getDefaultLibLocation: () => libDir,
    writeFile() {},
    getCurrentDirectory: () => "/",
    getCanonicalFileName: (f) => f,
    useCaseSensitiveFileNames: () => true,
    getNewLine: () => "\n",
    directoryExists: () => true,
    getDirectories: () => [],
    resolveModuleNameLiterals(literals, containing) {
      return literals.map((literal) => {
        const name = literal.text;
        let at;
        if (Object.prototype.hasOwnProperty.call(modules, name)) at = modules[name];
        else if (name.startsWith(".")) at = find(path.posix.join(path.posix.dirname(containing), name));
        if (at === undefined) return { resolvedModule: undefined };
        const extension = at.endsWith(".d.ts") ? ts.Extension.Dts : ts.Extension.Ts;
        return { resolvedModule: { resolvedFileName: at, extension, isExternalLibraryImport: false } };
      });
    },
  };
  const program = ts.createProgram({ rootNames: Object.keys(files), options, host });
  const diags = [...program.getOptionsDiagnostics(), ...program.getGlobalDiagnostics()];
  for (const name of Object.keys(files)) {
    const file = program.getSourceFile(name);
    diags.push(...program.getSyntacticDiagnostics(file), ...program.getSemanticDiagnostics(file));
  }
  return diags.map((d) => ({
    file: d.file ? d.file.fileName : "",
    line: d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start).line : -1,
    code: d.code,
    text: ts.flattenDiagnosticMessageText(d.messageText, "\n").slice(0, 2000),
  }));
}

let pending = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (chunk) => {
  pending += chunk;
  let at;
  while ((at = pending.indexOf("\n")) >= 0) {
    const line = pending.slice(0, at);
    pending = pending.slice(at + 1);
    let answer;
    try {
      answer = { diags: check(JSON.parse(line)) };
    } catch (e) {
      answer = { failed: String((e && e.stack) || e) };
    }
    process.stdout.write(JSON.stringify(answer) + "\n");
  }
});
process.stdin.on("end", () => process.exit(0));
