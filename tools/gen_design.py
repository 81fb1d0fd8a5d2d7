#!/usr/bin/env python3
"""DESIGN.md = head + per-property table + seeded table + tail."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import props
from design_notes import NOTES
rd = lambda f: open(os.path.join(V, "tools", f)).read()
out = [rd("design_head.md"), "## Properties\n"]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {d["property"]: d["reason"] for d in man["not_applicable"]}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    out.append("### %s %s\n" % (i, d["title"]))
    if i in na:
        out.append("Not applicable: " + na[i] + "\n")
        continue
    P = props.PROPS[i]
    out.append("Contracts: `specs/%s`. Functions under contract (%d): %s.%s%s\n" % (
        "`, `specs/".join(m + ".py" for m in P["mods"]), len(P["funcs"]), ", ".join(P["funcs"]),
        " Bounded stand-in (native driver, never counted as proved): %s." % ", ".join(P["standin"]) if P.get("standin") else "",
        " Lemmas proved on each run: %s." % ", ".join(P["lemmas"]) if P.get("lemmas") else ""))
    out.append(NOTES.get(i, "") + " Why tests cannot: " + d["why_tests_cant"] + ".\n")
out.append("## Planted bugs and the checks that catch them\n")
out.append("Each was written from the statement, builds, passes the 88 tests, and has a demonstration. The check of its property reports it:\n")
out.append("| id | property | what it breaks | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(s, "?")))
out.append(rd("design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
