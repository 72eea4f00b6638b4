#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
TECH = {
 "C01": "differential run-time oracle: parse trees by go.starlark.net before and after formatting",
 "C02": "run-time idempotence and re-parse monitor over generated and mutated files",
 "C03": "run-time comment conservation monitor with an independent scanner",
 "C04": "crash, hang and memory-guard (canary bytes) monitors over hostile inputs",
 "C05": "differential run-time oracle against go.starlark.net's parser",
 "C06": "run-time position monitors recomputed from the bytes of every node",
 "C07": "round-trip and differential monitors over literals (go.starlark.net, own decoder)",
 "C08": "run-time monitor with a reference model of list sorting",
 "C09": "run-time monitor with a reference model of load statements",
 "C10": "print/parse round-trip monitor over built and stripped trees",
 "C11": "trace monitor of visit sequences against a reflective reference walk",
 "C12": "end-to-end monitor of the binary's exit status, output and file snapshots",
 "C13": "cross-mode differential monitor of the real binary",
 "C14": "fault injection into system calls and files, file-state monitor",
 "C15": "file-set monitor of recursive runs against a reference walk",
 "C16": "reference model of flags, configuration and warning selection, observed on the binary",
 "C17": "purity and determinism monitors (snapshots, repeated and concurrent runs)",
 "C18": "fixpoint monitor over automated fixes",
 "C19": "execution monitor: programs run in the Starlark interpreter before and after fixes",
 "C20": "metamorphic run-time monitor of suppression comments",
 "C21": "execution-trace oracle: the Starlark interpreter against static findings",
 "C22": "metamorphic and model-based run-time monitor of cross-file lints",
 "C23": "reference-model monitor of buildozer commands",
 "C24": "frame-condition monitor over everything a command must not touch",
 "C25": "exit-code and file-write monitor of the real binary",
 "C26": "atomicity monitor over failing command sequences",
 "C27": "race detector and history monitor over concurrent runs",
 "C28": "reference parser of command files, observed on the real binary",
 "C29": "reference model of target selection, observed on real runs",
 "C30": "reference model of label resolution, observed on the file system",
 "C31": "set-semantics monitor of use_repo edits",
 "C32": "model-based monitor of load edits",
 "C33": "model-based monitor of fix commands",
 "C34": "reference-model monitor of printed fields",
 "C35": "reference model of labels, round-trip monitors",
 "C36": "reference model of unused dependencies, observed on the real binary",
 "C37": "round-trip monitor over generated archives",
 "C38": "reference model of table definitions, observed on the binaries",
 "C39": "execution oracle: static scopes against the Starlark interpreter's resolver",
 "C40": "differential run-time oracle of tree conversion",
 "C41": "race detector and result monitor over concurrent library use",
 "C42": "reference model of workspace roots over real directory trees",
 "C43": "model-based monitor of rule look-ups and edits",
 "C46": "monitor of findings and fixes against marks and a reference model of loads and repository names",
 "C47": "monitor of buildozer runs against a reference model of its options: files, streams, exit codes",
 "C48": "monitor of findings, position by position, against an independent flow and scope analysis of each program",
 "C50": "crash, hang and broken-output monitors over all tools on programs generated from the grammar and the tools' own names",
 "C49": "monitor comparing each formatted file byte for byte with a reference model of the layout rules",
 "C45": "monitor of lint findings against marked expectations in generated files",
 "C44": "metamorphic monitor of spellings with a reference model of argument order",
}
LEVEL = {"C14": "fault_enumeration"}
DONE = open("/verif/tools/done.txt").read().split()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
          "technique": "runtime monitoring: " + TECH[i], "level": LEVEL.get(i, "exploration"),
          "level_note": "The oracle observes executions of the code built from /repo's working tree; inputs are sampled (seeded), not exhaustive. See DESIGN.md."})
    else:
        na.append({"property": i, "reason": "Runtime monitoring applies; the monitor for it is not built yet, so it is not claimed."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors drive exported APIs, in-package overlays and the real binaries. fix: commits are listed in known_findings.jsonl."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
