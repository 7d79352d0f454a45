#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from DESIGN.in.md, harness/plan.py, properties.jsonl and tools/caught.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "harness")); sys.path.insert(0, HERE)
import plan
from seeded_defs import BUGS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t = ""
for p in props:
    i = p["id"]
    t += f"### {i} {p['title']}\n" + plan.HOW.get(i, "Not claimed yet.").strip() + "\n\n"
try:
    caught = json.load(open(os.path.join(HERE, "caught.json")))
except FileNotFoundError:
    caught = {}
s = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for b in BUGS:
    s += f"| {b['id']} | {b['property']} | {b['needs']} | {caught.get(b['id'], '?')} |\n"
d = open(os.path.join(V, "DESIGN.in.md")).read().replace("@@PROPS@@", t.strip()).replace("@@SEEDED@@", s.strip())
open(os.path.join(V, "DESIGN.md"), "w").write(d)
