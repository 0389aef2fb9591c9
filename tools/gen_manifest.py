#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    m = importlib.import_module("checks." + i)
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": "exploration", "level_note": m.LEVEL_NOTE})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "VERIF_SAN", "enable": "no hook is compiled into /repo; the checks build its sources with -fsanitize=address,undefined or -fsanitize=thread and observe the API", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Stand-ins for what is not available offline (the symdiff submodule, a PARDISO library) are in standin/; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
