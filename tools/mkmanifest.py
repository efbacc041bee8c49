#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "harness"))
import families
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = families.NOTES.get(i)
    if n is None:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    checks.append(dict(property=i,
        quick_cmd="VERIF_TIER=quick python3 harness/check.py %s" % i,
        thorough_cmd="VERIF_TIER=thorough python3 harness/check.py %s" % i,
        technique=n[0], level="model_checking", level_note=n[1]))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
    notes="TLA+ specifications in spec/ (checked with TLC), conformance drivers in harness/. No hooks in /repo; "
          "the fix: commits in /repo are listed in KNOWN_FINDINGS.txt."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
