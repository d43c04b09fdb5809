#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json: the checks that the harness has are claimed.
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set()
for f in glob.glob(os.path.join(root, "harness/cmd/vh/*.go")):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
tech = {
 "C01": "runtime monitoring: watchdog (CPU, memory, crash) around the real parser under exhaustive short strings, mutants and size stress",
 "C02": "runtime monitoring: tree of every execution compared with an independent reference parser",
 "C03": "runtime monitoring: verdict of every execution compared with an independent reference parser (fault injection into documents)",
 "C04": "runtime monitoring: round-trip oracle over parse/serialise executions, with faulty writers",
 "C05": "runtime monitoring: built trees against an independent reader of the serialised text",
 "C06": "runtime monitoring: online trace monitor of SAX events against a reference event stream",
 "C07": "runtime monitoring: model-based monitor of the links after every tree operation",
 "C08": "runtime monitoring: namespace bindings of tree and SAX events against an independent resolver",
 "C09": "runtime monitoring: references against an independent expander; all code points; entity graphs",
 "C10": "runtime monitoring: declarations written back and reported, compared by content-model language equivalence",
 "C11": "runtime monitoring: SAX attribute lists against a reference normaliser; repeated-run determinism",
 "C12": "runtime monitoring: decoded documents against independent code tables; invalid-byte injection",
 "C13": "runtime monitoring: error positions of injected single-line faults; metamorphic line shifts",
 "C14": "Go race detector and schedule-stressed differential runs",
 "C15": "runtime monitoring: metamorphic shifts and scaling against a reference parser",
 "C16": "fault injection at every callback event with a trace monitor",
 "C17": "runtime monitoring of the built command: outputs and exit status against the library and reference",
 "C18": "runtime monitoring: grid of XML declarations against a reference reader",
 "C20": "runtime monitoring: lookups and child list of the DTD against a map model, over documents and random operation histories",
 "C21": "runtime monitoring: differential, the same executions in builds with the debug tag and for a 32-bit platform",
 "C19": "runtime monitoring: visitor traces and content against a recursive model",
}
note = ("Every execution of the real code that the workloads make is judged by an oracle that shares no code with it; nothing is shown "
        "about inputs that are not executed. Trusts the harness (reference parser, generators, comparison) and the Go toolchain. ")
notes = {
 "C14": "Schedules are those the Go scheduler produces under stress; the race detector sees only accesses that are executed. ",
 "C02": "Exhaustive for short token sequences and short strings in every context and for every character. ",
 "C03": "Exhaustive for short token sequences and short strings in every context. ",
 "C12": "Exhaustive for the single-byte encodings; sampled repertoire for the others. ",
 "C16": "Every event of every generated document is made to fail. ",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="./run.sh "+i, thorough_cmd="VERIF_TIER=thorough ./run.sh "+i,
            technique=tech[i], level="exploration", level_note=notes.get(i, "")+note.strip()))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: everything is observed through the public API (nodes, SAX callbacks, serialised text, errors, the built command).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
