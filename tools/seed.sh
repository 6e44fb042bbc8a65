#!/bin/bash
# usage: tools/seed.sh try <id> [PROP...]  apply seeded/<id>/patch.diff to /repo, build, run its demo and the named checks, undo
#        tools/seed.sh demo <id>           demo on the unchanged tree
here=$(cd "$(dirname "$0")/.." && pwd)
id=$2
case $1 in
demo) ( . /opt/vp/env.sh; build_ext >/dev/null 2>&1; cd /repo; bash $here/seeded/$id/demo.sh; echo "demo clean rc=$?" );;
try)
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
  ( . /opt/vp/env.sh; cd /repo; build_ext >/dev/null 2>&1; timeout 300 bash $here/seeded/$id/demo.sh >/dev/null 2>&1; echo "$id demo clean rc=$?" )
  git -C /repo apply $here/seeded/$id/patch.diff || exit 1
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "BUILD FAILED"
  ( cd /repo; timeout 300 bash $here/seeded/$id/demo.sh >/tmp/seed_demo.log 2>&1; echo "$id demo patched rc=$?" )
  shift 2
  for p in "$@"; do ( cd $here && ./check.sh $p > /tmp/seed_check.log 2>&1; echo "$id check $p rc=$?"; grep -m2 -B1 VIOLATION /tmp/seed_check.log ); done
  git -C /repo checkout -- .
  ( . /opt/vp/env.sh; build_ext >/dev/null 2>&1 )
  ;;
esac
