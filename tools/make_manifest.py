#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/suites.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from suites import PROPS, SUITES, MODELS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in ids:
    if p in PROPS:
        su, mo = PROPS[p]
        checks.append({
            "property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --thorough" % p,
            "technique": "TLA+ specification (%s) checked with TLC; traces recorded from the real code validated by TLC against it (%s)"
                % (", ".join(sorted(set(MODELS[m]["module"] for m in mo)) or ["-"]), ", ".join(sorted(set(SUITES[s]["module"] for s in su)))),
            "level": "model_checking",
            "level_note": "The specification is checked exhaustively within the bounds of its configuration; the code is bound to it by "
                "replaying/recording finite many scenarios (model-enumerated and seeded random ones), judged step by step by TLC. "
                "Trusts: TLC, java/Num.java (fixed-point arithmetic, cross-checked by bin/selftest), the Python 3 translation of the sources, numpy."})
    else:
        na.append({"property": p, "reason": NA.get(p, "the specification and conformance suite for it are not finished yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed. Known findings and fixes: known_findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
