import json, os
from props import P, NOT_APPLICABLE
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
mods = json.load(open(os.path.join(root, "harness/modules.json")))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p.get("state", [])],
                        "observe_at": p["obs"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for p in P:
    if p["id"] not in mods:
        if p["id"] not in [x["property"] for x in na]:
            na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s --tier quick" % p["id"],
                   "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p.get("tech", "TLA+ specification checked with TLC; recorded traces of the real code validated against it by TLC"),
                   "level": p.get("level", "model_checking"), "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every observation goes through the public API. Entry point bin/check; machinery in harness/, specifications in spec/."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
