#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/bounds.py (claimed) and NA below (not claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
import bounds
NA = json.load(open(os.path.join(HERE, "tools/not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {"a": "symbolic execution of the real sources over a lifted field type, obligations decided by z3",
        "k": "Kani: bounded model checking of the real sources through CBMC's solver",
        "m": "symbolic execution of the compiler's LLVM IR, obligations decided by z3 over linear integer arithmetic",
        "d": "symbolic execution of whole-program LLVM IR, branches and assertions decided by z3 over bit-vectors",
        "p": "the rendered constraint program as polynomials over its cells, equality with the specified ones decided by z3"}
checks, na = [], []
for p in ids:
    if p in bounds.PROPS:
        b = bounds.PROPS[p]
        checks.append({"property": p, "quick_cmd": f"python3 checks/run.py {p} quick", "thorough_cmd": f"python3 checks/run.py {p} thorough",
                       "technique": "; ".join(TECH[e] for e in b["engines"]), "level": b.get("level", "other"),
                       "level_note": "Solver verdict over all values of the symbolic inputs within these bounds: " + b["bounds"]["quick"]
                                     + (". Outside: " + b["outside"] if b["outside"] else "")})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 checks/run.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
