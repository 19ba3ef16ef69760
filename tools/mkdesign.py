#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.*.md and the last results in tools/seeded.txt (id property rc seconds ... first violation)."""
import os, json, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
o = open(here + "/design.head.md").read() + open(here + "/design.props.md").read()
res = {}
if os.path.exists(here + "/seeded.txt"):
    for l in open(here + "/seeded.txt"):
        f = l.split()
        m = re.search(r"violated: (\w+): (.*?)( \(native|$)", l)
        res[f[0]] = (f[2], m.group(1) if m else "", (m.group(2) if m else "")[:70])
o += "| bug | property | caught by | needs |\n|---|---|---|---|\n"
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    r = res.get(d)
    c = f"`{r[1]}`" if r and r[0] == "rc=1" else ("missed" if r else "not run")
    o += f"| {d} | {m['property']} | {c} | {m['needs']} |\n"
n = sum(1 for d in res.values() if d[0] == "rc=1")
o += f"\n{n} of {len(res)} caught by the quick check of their own property.\n"
open(root + "/DESIGN.md", "w").write(o)
