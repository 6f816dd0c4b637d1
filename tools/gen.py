"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and the harnesses present."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from spec import P  # noqa

with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in P:
    mod = os.path.join(verif, "harness", p["id"].lower() + ".py")
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not os.path.exists(mod):
        na.append({"property": p["id"], "reason": "no check built yet"})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": "symbolic execution of the real omegaconf source with z3 deciding every path and assertion; "
                         "counterexamples and path models replayed on the unmodified code",
            "level": "model_checking",
            "level_note": p["level_note"] or "bounded: every value of the symbolic inputs within the harness bounds (see evidence and DESIGN.md)",
        })
with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
