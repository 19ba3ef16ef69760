#!/usr/bin/env python3
"""tools/notes.json (level notes of the manifest) from the table of DESIGN.md."""
import json, re
out = {}
for l in open("/verif/tools/design.props.md"):
    m = re.match(r"\| (C\d\d) \| (.*) \| (.*) \|$", l.rstrip())
    if m:
        out[m[1]] = ("Bounded: holds for every value within the bounds, nothing is claimed beyond them. Decided: %s. Bounds quick / thorough: %s. "
                     "Modelled, so trusted: package reflect, decimal/shortest-float text of symbolic numbers, sync.Pool, fmt (DESIGN.md). "
                     "Paths left open by the time limit, if any, are in the evidence." % (m[2], m[3]))
json.dump(out, open("/verif/tools/notes.json", "w"), indent=1)
