#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPERTIES, NA = [], []


def p(id, title, statement, over, text, why, files, mech, level="proof", note="", observe=None):
    PROPERTIES.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                            anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                     "observe_at": observe or []}), level, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    PROPERTIES.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                            anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), None, None))
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tools", "meta_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in PROPERTIES:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
NOTE = ("Every obligation of the listed contracts is generated from the current sources and discharged unboundedly by SMT; "
        "doubles as reals, ints mathematical, OpenMP pragmas dropped, termination not proved. ")
checks = []
for d, level, note in PROPERTIES:
    if level is None:
        continue
    checks.append({"property": d["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % d["id"],
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % d["id"],
                   "technique": "contract-based deductive verification of the C sources (own VC generator over the clang AST, z3)",
                   "level": level, "level_note": NOTE + note})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPERTIES), "properties", len(checks), "checks")
