#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harness files present in checks/"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
NOTE = ("Every path of the harness within the stated bounds is decided: branches and assertions are discharged by exact "
        "polynomial normalisation or by z3 over the reals/integers. Floating point is idealised as exact algebraic arithmetic; "
        "each explored path's witness and every counterexample is replayed on the real floating-point code with a tolerance. "
        "Trusted: the numpy/scipy stand-ins in sx/ (exact counterparts of the numerical primitives), z3, and the float tolerance of the replay.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "symbolic execution of the current source with z3 over all inputs within bounds, counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses load /repo's current source directly. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
