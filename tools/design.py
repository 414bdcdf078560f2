#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from the checks, the properties and the planted changes."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks import CHECKS  # noqa: E402
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
out = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    out.append(f"### {p['id']} {p['title']}\n\n*Rule.* {c.rule[0].upper() + c.rule[1:]}.\n\n*Obligations that must be met (floors):* {', '.join(c.floors)}. "
               f"*Config:* {c.config if isinstance(c.config, str) else " + ".join(c.config or ()) or 'see rule'}. *Method:* {getattr(c, 'technique', 'abstract interpretation of MIR')}. *Bounds:* {getattr(c, 'bounds', 'none (fixpoint over all paths and loop iterations)')}.\n\n*Beyond the tests:* {p['why_tests_cant']}\n")
na = [f"* **{x['property']}**: {x['reason']}" for x in man["not_applicable"]]
seeds = ["| change | property | what it does | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    f = lambda x: str(x).replace("|", "/").replace("\n", " ")
    seeds.append(f"| {d} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {caught.get(d, 'not run yet')} |")
t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
t = t.replace("PROPTABLE", "\n".join(out)).replace("NATABLE", "\n".join(na)).replace("SEEDTABLE", "\n".join(seeds))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
