#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and (os.path.exists(V + "/harness/prop_%s.cpp" % i.lower()) or T[i].get("always")):
        t = T[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the library's sources from /repo's working tree with clang's sanitizers together with a simulated network and scripted SMTP servers (no hooks in /repo: the library's libc calls are interposed at link time). Repaired defects are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
