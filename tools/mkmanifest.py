#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
tech = "TLA+ specification (TLC); traces recorded from the real code on TLC-generated scenarios, validated against the specification by TLC"
checks = []
for p in ids:
    if p not in PROPS: continue
    P = PROPS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=P.get("technique", tech), level="model_checking",
                       level_note=P.get("note", "Scenarios are chosen by TLC (seeded simulation over the parameter space of the spec); every recorded run is compared with the behaviour the specification prescribes; exhaustive only where an exhaustive model is listed in DESIGN.md.")))
m = dict(version=1, setup_cmd="python3 check.py --build", hooks=dict(guard="none", enable="no hooks: the checks import /repo's working tree as it is", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason="check not built yet") for p in ids if p not in PROPS],
         notes="See DESIGN.md. /repo carries fix: commits only; known_findings.json lists them.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
