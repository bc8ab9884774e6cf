"""Writes MANIFEST.json from specs.PROPS and properties.jsonl."""
import json, os
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        s = specs.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "not claimed yet: machinery under construction")})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: an abstract interpreter over LLVM IR built from /repo's current sources (engine/, drivers/), type-system witnesses and syntax-tree/IR rules. The tools are built on first use."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
