"""Write MANIFEST.json from the checks that exist: python3 tools/manifest.py"""
import ast
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "its monitors are not built yet"})
        continue
    v = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            v[node.targets[0].id] = " ".join(ast.literal_eval(node.value).split())
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
        "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + v["TECHNIQUE"],
        "level": "exploration",
        "level_note": v["NOTE"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes public interfaces of the installed package, imported from /repo/src.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
