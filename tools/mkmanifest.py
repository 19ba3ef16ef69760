#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness names."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
names = set()
for f in glob.glob(root + "/harness/h/*.go"):
    names |= set(re.findall(r"func H_(C\d\d)_\w+", open(f).read()))
notes = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in names:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the go/ssa form of /repo's current source with SMT (z3) deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, "Exhaustive within the bounds of the property's harnesses; see DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, "No check yet.")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "gosym (engine/) executes the repository's code symbolically; harness/h holds the properties as assertions. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
