#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe,
                           "hook_needed": None}, technique=technique, note=note))


exec(open(os.path.join(V, "tools", "table.py")).read())
NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 mc/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 mc/main.py %s quick" % p["id"],
                   "thorough_cmd": "python3 mc/main.py %s thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                  for p in P if os.path.exists(os.path.join(V, "mc", p["id"].lower() + ".py"))],
       "not_applicable": NA}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
