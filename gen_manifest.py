#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
LATTICE = "exhaustive enumeration of a finite state lattice on the real code, against an exact reference model"
HIST = "explicit-state exploration of all operation histories on the real code, in lockstep with a reference model"
FAULT = HIST + "; exhaustive fault and crash-point enumeration"
tech = {c: LATTICE for c in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C11","C14","C18","C20","C22","C26","C28"]}
tech |= {c: HIST for c in ["C12","C15","C16","C21"]}
tech |= {c: LATTICE + "; " + HIST for c in ["C10","C13","C23","C24","C25","C19"]}
tech["C17"] = FAULT
tech["C27"] = "exhaustive enumeration of a finite state lattice on the real code at every log level, compared state by state with a build without the feature"
NOTE = {
 "geo": "Every state of the stated finite product spaces (catalogue of shapes x placements) is executed on the real code and judged by exact f64 geometry. Assumes that behaviour between lattice points is like that on them; trusts the reference geometry in mckit/src/geo.rs (cross-checked there against an independent construction).",
 "hist": "Every operation history over the stated alphabet up to the stated depth (or until no new state appears) runs on the real code next to a reference model. Says nothing about operands outside of the alphabet.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import re
run = open(os.path.join(here, "run.sh")).read()
done = set()
for c in ["mcgeo", "mctile", "mc3d"]:
    f = os.path.join(here, c, "src", "main.rs")
    if os.path.exists(f):
        done |= set(re.findall(r'\("(C\d+)"', open(f).read()))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in done:
        na.append({"property": i, "reason": "its check is still being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "model checking: " + tech[i],
        "level": "model_checking",
        "level_note": NOTE["hist"] if tech[i] in (HIST, FAULT) else NOTE["geo"],
    })
m = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": checks, "not_applicable": na}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
