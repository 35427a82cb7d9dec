#!/bin/bash
# seedtest.sh [--demo|--check] id...: demo on both trees, tests, and the property's check with the patch, on a copy of /repo
MODE=both; case "$1" in --demo|--check) MODE=$1; shift;; esac
V=/verif
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  W=/tmp/st_$id; rm -rf "$W"; cp -a /repo "$W"
  r=""
  if [ $MODE != --check ]; then
    (cd "$W" && timeout 300 bash "$S/demo.sh" >/dev/null 2>&1); r="demo-clean=$?"
  fi
  (cd "$W" && git apply "$S/patch.diff") || { echo "$id: patch does not apply"; continue; }
  if [ $MODE != --check ]; then
    (cd "$W" && timeout 300 bash "$S/demo.sh" >/tmp/st_$id.log 2>&1); r="$r demo-patched=$? ($(tail -n1 /tmp/st_$id.log | cut -c1-60))"
  fi
  if [ $MODE != --demo ]; then
    t0=$(date +%s)
    o=$(cd $V && VP_REPO="$W" timeout 900 python3 run.py "$P" 2>&1); c=$?
    v=$(echo "$o" | grep -B3 "^VIOLATION property=$P" | head -3 | tr '\n' ' ' | cut -c1-200)
    r="$r check=$c $(( $(date +%s) - t0 ))s ${v:-MISSED}"
  fi
  echo "$id [$P]: $r"
  rm -rf "$W"
done
