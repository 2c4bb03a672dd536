#!/bin/bash
# usage: try.sh PATCHFILE PROP...   applies the patch to /repo, runs the checks, undoes it
p=$(realpath "$1"); shift
cd "$(dirname "$0")/.."
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
git -C /repo apply "$p" || { echo "does not apply: $p"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  out=$(timeout 850 python3 check.py $c 2>&1); rc=$?
  echo "$(basename $(dirname $p))/$(basename $p) $c rc=$rc $(echo "$out" | grep -B1 VIOLATION | head -1 | cut -c1-150)"
  [ $rc = 2 ] && echo "$out" | tail -15
done
