"""writes MANIFEST.json from properties.jsonl and the plan"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
NOTE = ("TLC explores the finite models exhaustively ({m}); the executions of the code built from /repo's working tree "
        "on generated scenarios ({f}) are validated event by event against the specification. Assumes: the scenarios are a "
        "seeded sample; results compared with relative tolerances stated in the specification; the compiler, TLC and java/Num.java are trusted.")
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN: continue
    pl = PLAN[i]
    ms = [m for m in pl.get("models", []) if os.path.exists(os.path.join(build.VERIF, "spec", m + ".tla"))]
    checks.append({"property": i, "quick_cmd": "python3 py/check.py %s quick" % i, "thorough_cmd": "python3 py/check.py %s thorough" % i,
        "technique": "TLA+ specification: TLC model checking and TLC trace validation of the real code",
        "level": "model_checking",
        "level_note": NOTE.format(m=", ".join(ms) or "none for this property", f=", ".join(x[0] for x in pl["fam"]))})
m = {"version": 1, "setup_cmd": "python3 py/build.py",
     "hooks": {"guard": "MATTER_VERIF", "enable": "py/build.py compiles /repo/src/simulation/*.cpp with -DMATTER_VERIF (and -DMATTER_VERIF_SPLINEDEG=2|3, -DTHREEDIM) together with harness/harness.cpp", "source_commits": ["50dbb00"]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built"} for p in props if p["id"] not in PLAN]}
json.dump(m, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
