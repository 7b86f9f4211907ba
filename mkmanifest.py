#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and units/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units.props import PROPS
ids = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in ids:
    i = p["id"]
    if i in PROPS and PROPS[i].get("claimed", True):
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=PROPS[i].get("technique", "symbolic execution of the compiled code (LLVM IR, JVM bytecode, x86-64) with SMT (z3) deciding each assertion over all inputs in the bounds; counterexamples replayed on the real code"),
                           level="other", level_note=PROPS[i]["explanation"]))
    else:
        na.append(dict(property=i, reason=PROPS.get(i, {}).get("reason", "no check yet: the machinery for this property is still being built")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Solver-based checking of the code as compiled; see DESIGN.md. No hooks in /repo. ./check PROP -v prints per-unit results; python3-vt replay.py FILE replays a counterexample.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
