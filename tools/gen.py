import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "technique": "symbolic execution of the Python sources of /repo "
            "with exact rational-function terms and z3 deciding every branch "
            "and obligation; counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "decided for every real value of the symbolic "
            "inputs within the bounds (quick tier smaller): " + p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "quick tier is VERIF_TIER=quick (default)"},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
