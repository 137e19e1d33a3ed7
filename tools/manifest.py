#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_CLAIMED
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/check.py --build-only",
         hooks=dict(guard="OPENSSE_VERIF_HOOKS", enable="not used: no hook was needed in /repo; the monitors sit at the "
                    "public interface and in interposed system calls", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
            technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_CLAIMED.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
