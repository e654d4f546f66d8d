#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.config import CHECKS, NOT_APPLICABLE
checks = []
for pid, c in CHECKS.items():
    checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid, thorough_cmd="python3 check.py " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=c.get("technique", "contract-based deductive verification of the functions in /repo (VC generation from the clang AST, discharged by z3 and cvc5), with a bounded run-time contract check for the functions out of its reach"),
                       level=c.get("level", "exploration"), level_note=c.get("note", "the contracts listed in the evidence are proved for all inputs; what they do not reach is checked by the bounded stand-in only, see DESIGN.md")))
m = dict(version=1, setup_cmd="python3 vlib/build.py e2e unit pyapi", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()],
         notes="No hooks are added to /repo. Repairs of defects are the 'fix:' commits, listed in known_findings.txt.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
