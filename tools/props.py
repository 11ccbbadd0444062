#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, level_note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    d["_note"] = level_note or "Generated-input search: no violation among the generated cases; nothing is claimed beyond the generator's domain (DESIGN.md)."
    d["_na"] = na
    P.append(d)

H, I, C = "histories", "inputs", "configurations"
exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for d in P:
    i = d["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".cpp")) and not d["_na"]:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": "property-based testing (generated inputs/histories against a reference model, with shrinking)",
                       "level": "exploration", "level_note": d["_note"], "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": d["_na"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harness and /repo's library sources from the current working tree; no hooks are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
