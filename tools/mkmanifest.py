#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + "/../properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="Every check rebuilds /repo's *.c (and *.cpp) itself; see DESIGN.md. No hooks in /repo are needed.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 tools/check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
            evidence_file=f"evidence/{i}.json", technique=c["technique"],
            level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open(HERE + "/../MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
