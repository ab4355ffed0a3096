#!/usr/bin/env python3
"""regenerate MANIFEST.json from tools/checks.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vlib
V = vlib.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = checks.NOTES
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the unmodified sources", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                            "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
