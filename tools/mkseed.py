"""tools/mkseed.py ID PROP FILE -- reads a JSON {old,new,needs,breaks} on stdin; writes seeded/ID/patch.diff and meta.json (run in clean /repo)."""
import sys, json, subprocess, os
sid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
base = "/verif/seeded/" + sid
os.makedirs(base, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
for f, old, new in d["edits"]:
    p = "/repo/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(base + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(base + "/meta.json", "w"), indent=1)
