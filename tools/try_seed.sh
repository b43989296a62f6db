#!/bin/bash
# try_seed.sh DIR...: does a planted change count?  Applies it to a scratch
# copy of /repo, runs its demonstration there (and on /repo) and the tests.
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
for d in "$@"; do
  d=$(realpath "$d"); id=$(basename "$d"); w=/tmp/seed-$id
  rm -rf "$w"; cp -a /repo "$w"
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed-$id.clean 2>&1); clean=$?
  if ! git -C "$w" apply "$d/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$w"; continue; fi
  (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/seed-$id.demo 2>&1); demo=$?
  echo "$id: demo clean=$clean patched=$demo"
  if [ -z "$NOTEST" ]; then
    (cd "$w" && HYPOTHESIS_STORAGE_DIRECTORY=/tmp/seed-$id.hyp PYTHONPATH=$w:/opt/vp/plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p rene_offline_hypothesis --hypothesis-seed=0 -n 8 --timeout=${TT:-120} --session-timeout=1700 -o junit_family=xunit2 --doctest-glob=README.md --junitxml=/tmp/seed-$id.xml tests README.md > /tmp/seed-$id.tests 2>&1)
    tail -1 /tmp/seed-$id.tests; grep "^FAILED" /tmp/seed-$id.tests | grep -v "test__xor__.py::test_associativity" | head -5
    rm -rf /tmp/seed-$id.hyp /tmp/seed-$id.xml
  fi
  rm -rf "$w"
done
