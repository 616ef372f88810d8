#!/opt/veriftools/pyvenv/bin/python3
"""regenerates properties.jsonl and MANIFEST.json from the table below and props/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props.registry import PROPS
T = []
def p(id, title, statement, over, qtext, why, files, mech, note):
    T.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note))
exec(open(os.path.join(V, "meta", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for t in T:
        if t["id"] not in PROPS and t["id"] not in NA: continue
        assert len(t["title"]) <= 80, t["id"]
        f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["qtext"]},
            "why_tests_cant": t["why"], "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]], "hook_needed": None}}) + "\n")
checks = []
for t in T:
    if t["id"] in PROPS:
        checks.append({"property": t["id"], "quick_cmd": f"python3-vt check.py {t['id']} quick", "thorough_cmd": f"python3-vt check.py {t['id']} thorough",
            "technique": "contract-based deductive verification over rustc MIR (mirvc + z3)", "level": PROPS[t["id"]].level, "level_note": t["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Every check rebuilds the MIR dump and the native harness from /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
