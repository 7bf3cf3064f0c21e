#!/bin/bash
# seedcheck.sh [id...]: applies each planted bug to a scratch copy of /repo... (to /repo itself, undone straight afterwards)
# and runs the quick check of its property; prints caught / missed.
V="$(cd "$(dirname "$0")/.." && pwd)"
for s in ${@:-$(ls "$V/seeded")}; do
  d="$V/seeded/$s"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$s $p DOES NOT APPLY"; continue; }
  out=$("$V/check.sh" "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "$s $p caught"; else echo "$s $p MISSED rc=$rc"; fi
done
