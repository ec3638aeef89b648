#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = {}
np = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(np): NOTES = json.load(open(np))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".cpp")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
          "evidence_file": "evidence/%s.json" % i,
          "technique": n.get("technique", "stateless bounded-exhaustive exploration of the real code against a reference model"),
          "level": "model_checking",
          "level_note": n.get("note", "Every input/operation sequence of the stated finite alphabets is executed on the real code and compared with an independent reference; values outside the alphabets are not covered.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the library is a pure header-only library, every check drives its public API. Checks compile /repo/include of the current working tree into a private scratch directory that is removed afterwards."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
