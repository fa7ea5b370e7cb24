#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        m = importlib.import_module("checks." + p.lower())
    except ModuleNotFoundError:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    reason = getattr(m, "NOT_APPLICABLE", None)
    if reason:
        na.append({"property": p, "reason": reason})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 mc/run.py %s" % p,
        "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": getattr(m, "TECHNIQUE",
                             "bounded exhaustive exploration of the real code "
                             "against a reference model"),
        "level": getattr(m, "LEVEL", "model_checking"),
        "level_note": "Complete within: %s. Trusts: %s." % (
            m.BOUNDS, "; ".join(getattr(m, "ASSUMPTIONS", [])) or "compiler"),
    })
out = {
    "version": 1,
    "setup_cmd": "python3 mc/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: python3 mc/run.py <ID>; see DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
