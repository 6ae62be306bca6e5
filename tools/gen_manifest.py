#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: the claimed checks with their technique, the others as not applicable.
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
def check(id, level, technique, note):
    C[id] = (level, technique, note)
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks are committed in /repo. Checks that own scheduling, map order or the file system build /repo's working tree through 'go build -overlay' with instrumented copies that are generated at run time (harness/cmd/overlay).", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Each check builds its explorer from /repo's working tree; see DESIGN.md."}
for p in props:
    if p in C:
        level, tech, note = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check has been built for it yet.")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
