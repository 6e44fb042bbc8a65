#!/bin/bash
# Nothing is compiled ahead of the checks (each rebuilds the kernel from /repo when it changed); verify the tools are there.
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
mkdir -p evidence
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
[ -f /opt/veriftools/tla/CommunityModules-deps.jar ] || { echo "TLC is missing"; exit 1; }
. /opt/vp/env.sh
( build_ext ) >/dev/null 2>&1 || { echo "kernel build failed"; exit 1; }
/opt/venv/bin/python -c "import numpy, scipy, astropy, h5py" || exit 1
echo ready
