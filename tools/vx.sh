#!/bin/bash
# vx.sh unit  -> weave and verify
cd /verif/weaver && cargo build --offline -q 2>/dev/null
mkdir -p /tmp/w
target/debug/vx /verif/units/$1.vx ${REPO:-/repo} /tmp/w/$1.rs /tmp/w/$1.json $2 || exit 1
python3 - <<P
import json;d=json.load(open('/tmp/w/$1.json'))
for e in d['errors']: print('WEAVE-ERR',e)
for f in d['fns']:
    if f['lost'] or f['missing'] or f['renames'] or f['inlined']: print(f['path'],'LOST',f['lost'],f['missing'],f['renames'],f['inlined'])
P
cd /tmp/w && timeout 600 verus $1.rs -A warnings --multiple-errors 6 --triggers-mode silent --rlimit ${RL:-30} 2>&1 | grep -v "^warning: unused" | head -${N:-80}
