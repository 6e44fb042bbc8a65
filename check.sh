#!/bin/bash
# usage: check.sh <property> [quick|thorough]   -- rebuilds the kernel from /repo's working tree, then decides the property
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/evidence"
blog=$(mktemp)
( flock 9; build_ext ) >"$blog" 2>&1 9>/tmp/.verif_build_lock || { cat "$blog"; rm -f "$blog"; echo "kernel build failed"; exit 2; }
rm -f "$blog"
scratch=$(mktemp -d /tmp/verif_run.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export TMPDIR=$scratch HOME=$scratch XDG_CACHE_HOME=$scratch/c XDG_CONFIG_HOME=$scratch/g MPLCONFIGDIR=$scratch/m
mkdir -p "$XDG_CACHE_HOME" "$XDG_CONFIG_HOME" "$MPLCONFIGDIR"
export PYTHONPATH=/repo:$here JAVA_TOOL_OPTIONS=
cd "$here" && /opt/venv/bin/python -m vlib.main "$@"
