"""Writes MANIFEST.json from the checks that exist in harness/."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
mods = {f[:3].upper(): f for f in os.listdir(os.path.join(root, "harness")) if re.match(r"c\d\d_.*\.py$", f)}
meta = json.load(open(os.path.join(root, "tools", "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods and i in meta:
        m = meta[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": m["technique"], "level": m.get("level", "model_checking"), "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": "not built yet"})
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "TLA+ specifications in spec/, checked and used as oracle by TLC; drivers of the real code in harness/. No hooks in /repo."}
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
