#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (lib/checks.py) and the notes here."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import checks

TRACE = "TLA+/TLC: exhaustive model check, and validation of recorded runs of the code against the specification"
CASES = "TLA+/TLC: cases enumerated by the specification are run through the code, TLC validates every recorded outcome"
NOTES = checks.NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "The specification is /verif/spec (TLA+); /verif/harness holds the drivers that are compiled into /repo with go test -overlay; no hooks in /repo are needed.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        kind, note = NOTES[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": TRACE if kind == "trace" else CASES,
            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
