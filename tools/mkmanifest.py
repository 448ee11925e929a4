"""Writes /verif/MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import registry
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks = []
for p in props:
    if p["id"] in registry.CHECKS:
        _, _, level, tech, note = registry.CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": level, "level_note": note})
na = [{"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "the specification does not cover it yet")}
      for p in props if p["id"] not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harness/ replays behaviours generated from them on the package and coffe-cli and lets TLC judge the recorded traces. No hooks in /repo."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", [x["property"] for x in na])
