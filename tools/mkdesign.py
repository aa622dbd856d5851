#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, registry and seeded/ (template: DESIGN.in.md)."""
import json, os, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from mv import registry
rows = ["## Properties and how each is decided", "", "| id | property | decided by |", "|---|---|---|"]
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    how = registry.how(p["id"])
    rows.append("| %s | %s | %s |" % (p["id"], p["title"], how))
seeds = ["## Planted changes (seeded/)", "", "Each passes the stable tests and has a demonstration; 'caught by' = quick tier.", "",
         "| change | property | breaks | caught by |", "|---|---|---|---|"]
cb = json.load(open(os.path.join(here, "tools", "caught.json"))) if os.path.exists(os.path.join(here, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    seeds.append("| %s | %s | %s (needs: %s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], cb.get(i, "?")))
s = open(os.path.join(here, "tools", "DESIGN.in.md")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDED@@", "\n".join(seeds))
open(os.path.join(here, "DESIGN.md"), "w").write(s)
