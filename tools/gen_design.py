#!/usr/bin/env python3
# Puts /verif/DESIGN.md together from tools/DESIGN.in.md, tools/design_props.md, known-findings.txt and seeded/*/meta.json.
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{R}/tools/DESIGN.in.md").read()
caught = json.load(open(f"{R}/tools/caught.json"))
rows = ["| change | property | needs | caught |", "|---|---|---|---|"]
for m in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '?')} |")
find = []
for l in open(f"{R}/known-findings.txt"):
    if l.startswith("finding:"):
        find.append("* " + l[len("finding: property="):].strip())
fixed = [l[len("fixed: property="):].strip() for l in open(f"{R}/known-findings.txt") if l.startswith("fixed:")]
t = t.replace("@@PROPS@@", open(f"{R}/tools/design_props.md").read().strip())
t = t.replace("@@SEEDED@@", "\n".join(rows))
t = t.replace("@@FINDINGS@@", "All recorded findings, by key:\n\n" + "\n".join(find) + "\n\nRepaired:\n\n" + "\n".join("* " + f for f in fixed))
open(f"{R}/DESIGN.md", "w").write(t)
