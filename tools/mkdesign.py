#!/usr/bin/env python3-vt
"""Fills the generated tables of DESIGN.md from properties.jsonl, units/props.py, evidence/ and seeded/."""
import json, os, re, sys
sys.path.insert(0, "/verif"); os.chdir("/verif")
from units.props import PROPS
src = open("DESIGN.tmpl.md").read() if os.path.exists("DESIGN.tmpl.md") else open("DESIGN.md").read()
rows = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    q = PROPS.get(p["id"])
    if not q or not q.get("claimed", True):
        rows.append("### %s %s\nNot claimed: %s\n" % (p["id"], p["title"], (q or {}).get("reason", "machinery not built yet")))
        continue
    ev = {}
    if os.path.exists("evidence/%s.json" % p["id"]):
        ev = json.load(open("evidence/%s.json" % p["id"]))
    c = ev.get("coverage", {})
    rows.append("### %s %s\n%s\n\n* Quantified over: %s.\n* Out of reach of tests: %s\n* Bounds: %s\n* Cost of the quick check: %s s, %s solver queries, %s claims.\n" % (
        p["id"], p["title"], q["explanation"], p["quantifier"]["text"], p["why_tests_cant"], "; ".join(c.get("bounds", [])) or "none beyond the operand sizes",
        int(ev.get("wall_s", 0)), c.get("solver_queries", "?"), c.get("claims", "?")))
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, m["property"])))
open("DESIGN.md", "w").write(src.replace("@@PROPS@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
