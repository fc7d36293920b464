#!/usr/bin/env python3
"""single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "common/include/rofl/common/"
G = "geometry/include/rofl/geometry/"
TECH = "contract-based deductive verification: VCs generated from clang's LLVM IR of the real functions, discharged by z3/cvc5"
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, tech=TECH, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, note, na, tech))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import rvc.run'",
       "checks": [], "not_applicable": [],
       "notes": "No hooks were added to /repo. tools/props.py generates this file and properties.jsonl from tools/proplist.py."}
for d, note, na, tech in P:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        man["checks"].append({"property": d["id"], "quick_cmd": "python3-vt check.py %s quick" % d["id"],
                              "thorough_cmd": "python3-vt check.py %s thorough" % d["id"],
                              "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "proof", "level_note": note})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
