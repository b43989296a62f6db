#!/bin/bash
# try_checks.sh DIR...: does the check of its property notice a planted change?
# (In a scratch copy of /repo; PROPS overrides which checks are run.)
cd "$(dirname "$0")/.."
for d in "$@"; do
  d=$(realpath "$d"); id=$(basename "$d"); w=/tmp/chk-$id
  rm -rf "$w"; cp -a /repo "$w"
  if ! git -C "$w" apply "$d/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$w"; continue; fi
  for p in ${PROPS:-$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}; do
    o=$(RENE_REPO=$w python3 harness/check.py $p 2>&1); rc=$?
    echo "$id: $p rc=$rc $(echo "$o" | grep -v VIOLATION | grep sessions | grep -v judged | cut -c1-90 | tr '\n' ';')"
  done
  rm -rf "$w"
done
