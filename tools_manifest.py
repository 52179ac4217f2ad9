#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claimed checks."""
import json,sys,subprocess,os
H=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
notes=json.load(open(H+'/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in notes:
        n=notes[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',technique=n['technique'],level='model_checking',level_note=n['note']))
    else:
        na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./run.sh build',
  hooks=dict(guard='cfg(kmc)',enable='RUSTFLAGS="--cfg kmc" (set by run.sh when it builds the checker crate /verif/mc, which has a path dependency on /repo)',
    source_commits=[subprocess.check_output(['git','-C','/repo','rev-parse',c],text=True).strip() for c in ('5d5ad65','26621da')]),
  checks=checks,not_applicable=na)
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
