import json, subprocess, sys, os
def seed(sid, prop, edits, needs, breaks, demo):
    subprocess.run([sys.executable, "/verif/tools/mkseed.py", sid, prop], input=json.dumps(dict(edits=edits, needs=needs, breaks=breaks)), text=True, check=True)
    d = "/verif/seeded/" + sid
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nhere=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d) || exit 3\ntrap \'rm -rf "$work"\' EXIT\ncd "$work" && exec_rc=0\n/opt/venv/bin/python "$here/demo.py" "$work"\nexit $?\n')
    open(d + "/demo.py", "w").write(demo)
