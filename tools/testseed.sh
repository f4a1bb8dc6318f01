#!/bin/bash
# testseed.sh ID... : demo on the clean tree, demo with the patch, the property's check with the patch
for s in "$@"; do
  d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo
  bash $d/demo.sh >/tmp/ts_clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$s DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/ts_build 2>&1; b=$?
  bash $d/demo.sh >/tmp/ts_bug 2>&1; c=$?
  (cd /verif && ./check $p >/tmp/ts_check_$s 2>&1); r=$?
  git checkout -q -- .
  echo "$s prop=$p demo-clean=$a build=$b demo-bug=$c check=$r :: $(grep -E '^VIOLATION' /tmp/ts_check_$s) :: $(grep -E '^failed obl|undecided' /tmp/ts_check_$s | head -3 | cut -c1-150 | tr '\n' '|') $(grep -A1 '^failing input' /tmp/ts_check_$s | cut -c1-200 | tr '\n' ' ')"
done
