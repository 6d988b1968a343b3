#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the harness lists, the others as not (yet) claimed."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
listed = subprocess.run([f"{here}/check.sh", "--list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
T = {
 "P01": ("property-based testing against a reference model of field collection", "Generated schemas and documents; every generated module is parsed and compared with an independent model, exploration only."),
 "P02": ("property-based testing against a reference model of wrappers and leaf types", "Generated schemas up to four list levels and all type options; exploration only."),
 "P03": ("property-based testing against a reference model of variables", "Generated operations; exploration only."),
 "P04": ("property-based testing against a reference closure of global types", "Generated document sets over recursive input objects; exploration only."),
 "P05": ("property-based testing of generated import graphs against a resolution model", "Generated file trees and import graphs including cycles, missing and wrong files; exploration only."),
 "P06": ("metamorphic property-based testing (inline, extract, split)", "Modules generated from both forms are compared structurally; exploration only."),
 "P07": ("metamorphic and differential property-based testing across threads, orders and permutations", "Byte comparison of outputs; hash seeds vary by process; exploration only."),
 "P08": ("property-based testing of generated trees under harness-owned random schedules", "Schedules are owned through cfg(qlc_verif) schedule points, plus real threads; exploration only, not exhaustive."),
 "P09": ("differential property-based testing with injected invalid documents", "Compared with a run without the invalid documents; exploration only."),
 "P10": ("mutation-based property testing against expected diagnostics", "Valid documents with one injected culprit of a known kind; exploration only."),
 "P11": ("generation- and mutation-based fuzzing", "Structured and byte-level inputs; termination is judged by resource limits with confirmation; exploration only."),
 "P12": ("property-based testing with file tree snapshots", "Whole tree compared before and after; exploration only."),
 "P13": ("metamorphic property-based testing of option placement", "Same effective options through flags, file and both; exploration only."),
 "P14": ("property-based testing against a reference model of warnings", "Exploration only."),
 "P15": ("property-based testing with adversarial descriptions against a documentation model", "Exploration only."),
 "P16": ("property-based testing with the TypeScript compiler as oracle", "Generated conforming and non-conforming responses and variables are type-checked; trusts TypeScript 5.9; exploration only."),
 "P17": ("property-based testing with the TypeScript compiler as oracle", "Generated modules are used through the shipped helpers; trusts TypeScript 5.9; exploration only."),
 "P18": ("property-based fault injection into file operations", "Faults are injected by an LD_PRELOAD shim at generated operations; exploration only."),
 "P19": ("property-based testing against generated servers", "The script runs against a scripted local server; exploration only."),
 "P20": ("property-based testing with generated release servers", "The script runs against a local TLS server to which a preload redirects all its connections, as an unprivileged user in a scratch copy; exploration only."),
 "P21": ("mutation-based property testing of schemas", "Decorated and corrupted schemas; exploration only."),
 "P23": ("property-based testing of the release scripts end to end, with stand-ins for what publishes", "cargo, ghr and yarn are stand-ins that record and copy; archives and checksums are recomputed; exploration only."),
 "P22": ("property-based testing against a reference model of type names", "As P01; exploration only."),
}
checks, rest = [], []
for p in props:
    i = p["id"]
    if i in listed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "fault_enumeration" if False else "exploration", "level_note": T[i][1]})
    else:
        rest.append({"property": i, "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "./check.sh --build",
  "hooks": {"guard": "cfg qlc_verif", "enable": "RUSTFLAGS=\"--cfg qlc_verif\" cargo build (into a target directory below /verif/target)", "source_commits": ["f2895b8"]},
  "checks": checks, "not_applicable": rest,
  "notes": "check.sh builds the harness and the compiler from /repo's working tree, runs the check, writes evidence/<id>.json and, on a violation, replays/<id>-*.json. check.sh --replay FILE runs a recorded case again."},
  open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
