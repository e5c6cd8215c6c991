#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/tools/techniques.json"))
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/harness/%s.cpp" % i.lower()):
        t = T.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t.get("technique", "property-based testing against a reference model"),
                       "level": "exploration",
                       "level_note": t.get("note", "Random generated-input search against an explicit oracle; absence of a violation holds for the generated cases only.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks only use the public API, built with REFLECT_USE_EXCEPTIONS=1 (the library's own option) and sanitizers."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
