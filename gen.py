#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py and registry.py."""
import json, os
from propdefs import P
from registry import PROPS, HARNESSES
V = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every feasible path of the real functions (LLVM IR of the current sources) through the harness is executed symbolically and the "
        "assertions are decided by Z3 for all values within the bounds; holds only within those bounds: %s. Trusts clang, the IR "
        "instrumentation, the runtime's encoding of integer and (grid-exact or error-bounded) double arithmetic, Z3, and library code run concretely.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "state": list(p["state"]), "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        assert p["id"] not in PROPS
        continue
    hs = PROPS[p["id"]]["harnesses"]
    b = "; ".join("%s: %s" % (h, HARNESSES[h].get("bounds", "see DESIGN.md")) for h in hs)
    checks.append({"property": p["id"], "quick_cmd": "python3 vp.py check " + p["id"], "thorough_cmd": "python3 vp.py check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled source with Z3",
                   "level": "model_checking", "level_note": NOTE % b})
json.dump({"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": na,
           "notes": "One command per property; DESIGN.md describes the engine, the harnesses and what lies outside the bounds."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
