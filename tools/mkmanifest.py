#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks/*.py."""
import ast, json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "VP_TRACE", "enable": "not needed: no hook commits; every check observes the public API (drivers and scripts under /verif)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in specs/, checked and bound with TLC. check.py ID runs one property. See DESIGN.md."}
for p in props:
    f = f"{R}/checks/{p['id']}.py"
    if not os.path.exists(f):
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": v["TECHNIQUE"], "level": v.get("LEVEL", "model_checking"), "level_note": v["NOTE"]})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
