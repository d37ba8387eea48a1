#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table (tools/table.py)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "lib"))
from table import P, NA      # noqa: E402
import registry              # noqa: E402

man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "every check reads /repo's working tree, lowers or parses it anew and decides by static analysis; nothing of the "
                "library is executed"}
out = []
for p in P:
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
    if "observe" in p:
        q["anchors"]["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    out.append(q)
    if p["id"] in registry.TABLE:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                              "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                              "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in out:
        f.write(json.dumps(q) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
rows = ["| bug | property | needs | effect |", "|---|---|---|---|"]
seeds = os.path.join(HERE, "tools", "seeds")
for n in sorted(os.listdir(seeds)):
    if n.endswith(".py"):
        m = {}
        exec(open(os.path.join(seeds, n)).read(), m)
        rows.append("| %s | %s | %s | %s |" % (n[:-3], m["PROPERTY"], m["NEEDS"].replace("|", "/"), m["BREAKS"].replace("|", "/")))
with open(os.path.join(HERE, "tools", "design.md")) as f:
    text = f.read()
text = text.replace("@@SEEDS@@", "\n".join(rows))
text = text.replace("@@NA@@", "\n".join("* **%s %s.** %s" % (p["id"], p["title"], NA[p["id"]]) for p in P if p["id"] not in registry.TABLE))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
