#!/bin/bash
# testcheck.sh ID... : build with the patch, then the property's check with the patch (demos: testseed.sh)
for s in "$@"; do
  d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  git apply $d/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/ts_build 2>&1; b=$?
  (cd /verif && ./check $p >/tmp/ts_check_$s 2>&1); r=$?
  git checkout -q -- .
  echo "$s prop=$p build=$b check=$r :: $(grep -E '^VIOLATION' /tmp/ts_check_$s) :: $(grep -E '^failed obl|undecided' /tmp/ts_check_$s | head -3 | cut -c1-170 | tr '\n' '|') $(grep -A1 '^failing input' /tmp/ts_check_$s | cut -c1-200 | tr '\n' ' ')"
done
