"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTE = json.load(open(os.path.join(here, "levels.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "drivers", i.lower() + ".py")) and i in NOTE:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=NOTE[i]["technique"], level="model_checking", level_note=NOTE[i]["note"]))
    else:
        na.append(dict(property=i, reason=NOTE.get(i, {}).get("na", "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="TLA+ specifications in specs/, drivers in drivers/, common machinery in vlib/. No hooks in /repo."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
