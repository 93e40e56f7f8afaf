#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims in props.py and the property list."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from props import PROPS  # noqa: E402

TECH = (
    "static analysis of compiler IR: abstract interpretation of monomorphic MIR (value numbering, interval and "
    "fact domains, trace partitioning, loop widening; no solver), comparing every behaviour of a use of the public API with a "
    "reference use that does not involve the library"
)
NOTE = (
    "Unlimited inputs per obligation: values, user implementations and sinks are unknown, loops are widened. "
    "Limited to the obligations listed in witness/src, the feature configurations run, and the models of std."
)
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check.sh {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": c.get("technique", TECH),
                "level": "other",
                "level_note": c.get("note", NOTE),
            }
        )
    else:
        na.append({"property": i, "reason": "not yet covered by the analysis"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Exit 2 of a check means the analysis could not decide an obligation on the tree it was given.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
