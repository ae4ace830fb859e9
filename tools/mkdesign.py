#!/usr/bin/env python3
"""Puts DESIGN.md together from tools/design/, the properties, the harness's own descriptions, evidence and seeded/."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech = json.loads(rd("tools/techniques.json"))
why = json.loads(rd("tools/design/why.json"))
out = [rd("tools/design/head.md")]
for p in props:
    i = p["id"]; src = rd("harness/prop_%s.cpp" % i.lower())
    q = [json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', src[src.index("const PropDef theProp"):])]
    old = rd("DESIGN.md") if os.path.exists(V + "/DESIGN.md") else ""
    cost = re.search(r"### %s .*?(\*Cost[^\n]*)" % i, old, re.S)
    cost = cost.group(1) if cost else ""
    if os.path.exists(V + "/evidence/%s.json" % i):
        ev = json.loads(rd("evidence/%s.json" % i))
        if ev["tier"] == "quick":
            cost = "*Cost (quick, 8 cores):* about %d executions, %d distinct non-trivial observations, %.0f s." % (ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"])
    out.append("### %s %s\n\n*Deciding method:* %s.\n\n*Generated, monitored, oracle:* %s\n\n*Why beyond tests:* %s\n\n*Bounds and assumptions:* %s.\n\n%s\n\n" % (
        i, p["title"], tech[i]["technique"], q[1], why[i], "; ".join(x for x in q[2:] if len(x) > 12), cost))
out.append(rd("tools/design/tail.md"))
out.append("| planted bug | what it needs | caught by |\n|---|---|---|\n")
c = json.loads(rd("tools/design/caught.json")) if os.path.exists(V + "/tools/design/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s |\n" % (i, m["needs"].replace("|", "/"), c.get(i, "not run yet")))
if os.path.exists(V + "/tools/design/mutation.md"):
    out.append("\n" + rd("tools/design/mutation.md"))
open(V + "/DESIGN.md", "w").write("".join(out))
