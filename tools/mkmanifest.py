#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from contracts/props.py and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from contracts import plan
from contracts.props import HARNESS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    n = len(plan.PLAN.get(i, []))
    note = plan.NOTE.get(i, "")
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}", "evidence_file": f"evidence/{i}.json",
      "technique": "contracts on the real functions, verification conditions from clang IR discharged by z3/cvc5" + ("" if n else " (not yet: bounded stand-in)"),
      "level": "proof" if n else "exploration", "level_note": note or ("bounded, seeded runs of the real code against a reference model; nothing is proved" if not n else f"{n} functions verified for all inputs; assumptions and trusted base in the evidence; the bounded part is a witness search only")})
m = {"version": 1, "setup_cmd": "mkdir -p evidence && python3-vt -c 'import z3'", "checks": checks,
  "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
  "notes": "No hooks in /repo. Every check rebuilds from /repo's working tree in a temporary directory."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
