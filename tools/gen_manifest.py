#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], stdout=subprocess.PIPE, text=True).stdout.split()
NA = {}
m = {"version": 1,
     "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "SIMU_VERIF_MALLOC", "enable": "compile with -DSIMU_VERIF_MALLOC (run.py does, for the variants asanmalloc and memcheck)",
               "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "technique": p["technique"], "level": "exploration",
                            "level_note": p["note"] + ". Assumes: " + "; ".join(p.get("assumptions", ["-"]))})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
assert all(k in ids for k in PROPS)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
