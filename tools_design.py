#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md (between the markers) from properties.jsonl,
levels.json (hand-written prose per property) and the scenario tables of the last quick evidence."""
import json,os
H=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
notes=json.load(open(H+'/levels.json'))
out=[]
for p in props:
    i=p['id']; n=notes[i]; e=json.load(open(f'{H}/evidence/{i}.json')); c=e['coverage']
    out.append(f"### {i}. {p['title']}\n")
    out.append(f"*Oracle.* {n['oracle']}\n")
    out.append(f"*What it reaches that tests do not.* {n['beyond']}\n")
    if n.get('limits'): out.append(f"*Outside the check.* {n['limits']}\n")
    ex=c['traces_validated_against_impl']; st=c['transitions']
    out.append(f"*Bounds of the quick tier* ({ex:,} executions, {c['states']:,} states, {st:,} compared items):\n")
    for s in c['scenarios']: out.append(f"* `{s['name']}`: {s['bound']}")
    out.append('')
d=open(H+'/DESIGN.md').read()
a='<!-- properties -->'; b='<!-- /properties -->'
h,r=d.split(a); _,t=r.split(b)
open(H+'/DESIGN.md','w').write(h+a+'\n\n'+'\n'.join(out)+'\n'+b+t)
