#!/bin/bash
# usage: seeded.sh [-a] [id...]   runs the check of each planted bug's property (with -a: every check) against it.
cd "$(dirname "$0")/.." || exit 2
all=
[ "$1" = -a ] && { all=1; shift; }
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${all:+$(seq -f 'C%02g' 26)} ${all:-$p}; do
    [ "$c" = 1 ] && continue
    s=$SECONDS
    o=$(./check.sh "$c" quick 2>&1); rc=$?
    v=$(echo "$o" | grep -c "^VIOLATION property=$c ")
    echo "$id own=$p check=$c rc=$rc violations=$v $((SECONDS-s))s"
    [ $rc -ge 2 ] && echo "$o" | tail -5
  done
  git -C /repo checkout -q -- .
done
git -C /repo status --short
