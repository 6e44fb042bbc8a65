"""usage: fixed.py PROP COMMIT WHAT: record a repaired defect."""
import json, sys
p, c, w = sys.argv[1:4]
with open("known_findings.jsonl", "a") as f:
    f.write(json.dumps(dict(status="fixed", property=p, commit=c, what=w, entry=f"fixed: property={p} {c} {w}")) + "\n")
