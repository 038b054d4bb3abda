#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
AI = "abstract interpretation of the compiler IR (boolean-function bit domain, affine sizes, inductive loop summaries)"
checks = []
for pid, s in sorted(P.PROPS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 vp/check.py %s quick" % pid, "thorough_cmd": "python3 vp/check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": s.get("technique", AI), "level": "other", "level_note": s.get("note", P.NOTE)})
m = {"version": 1, "setup_cmd": "make -C tool -j8", "checks": checks, "not_applicable": P.NOT_APPLICABLE,
     "notes": "Static analysis only: nothing of BitLib is executed. Every check lowers /repo's current headers to LLVM IR and analyses that; a check builds the analyser itself when setup_cmd has not."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
