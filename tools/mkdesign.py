#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json,os,glob
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
checks=json.load(open(V+'checks.json'))
na=json.load(open(V+'tools/not_applicable.json'))
orc=json.load(open(V+'tools/oracles.json'))
kf=json.load(open(V+'known_findings.json'))
out=[open(V+'tools/design_head.md').read()]
out.append('\n## 2. Properties: oracle, bounds, what is outside\n')
out.append('Bounds written a|b are quick|thorough. Cost is at most about 80 s on 8 cores per check in the quick tier.\n')
seeds={}
for m in sorted(glob.glob(V+'seeded/*/meta.json')):
    j=json.load(open(m)); seeds.setdefault(j['property'],[]).append(os.path.basename(os.path.dirname(m)))
for p in props:
    i=p['id']; c=checks.get(i)
    out.append(f"### {i} {p['title']}\n")
    out.append(p['statement']+'\n')
    out.append('*Anchored in* '+', '.join('`%s`'%f for f in p['anchors']['files'])+'. *Why not tests:* '+p['why_tests_cant']+'.\n')
    if not c:
        out.append('**Not applicable:** '+na.get(i,'')+'\n'); continue
    if i in orc: out.append('*Oracle:* '+orc[i]+'\n')
    for h in c['harnesses']:
        out.append('* `%s`: %s%s'%(h['fn'],h.get('bounds',''),' (thorough tier only)' if h.get('tier')=='thorough' else ''))
    if c.get('models'): out.append('* library models: '+', '.join(c['models']))
    if c.get('outside'): out.append('* outside: '+c['outside'])
    if i in seeds: out.append('* planted bugs caught: '+', '.join(seeds[i]))
    for k in kf:
        if k['property']==i and k['status']=='known': out.append('* known finding: '+k['what'])
    out.append('')
out.append('\n## 3. Genuine defects found\n')
out.append('Repaired, one `fix:` commit each (these entries suppress nothing):\n')
for k in kf:
    if k['status']=='fixed': out.append('* '+k['what'].replace('fixed: ','',1))
out.append('\nRecorded, not repaired (each check prints a KNOWN-FINDING line; `known_findings.json` identifies harness and assertion):\n')
for k in kf:
    if k['status']=='known': out.append('* %s: %s'%(k['property'],k['what']))
out.append('\n'+open(V+'tools/design_tail.md').read())
out.append('\n### Planted bugs\n')
out.append('| bug | property | needs | what it breaks |\n|---|---|---|---|')
for m in sorted(glob.glob(V+'seeded/*/meta.json')):
    j=json.load(open(m)); out.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),j['property'],j['needs'],j['what_it_breaks']))
out.append('\nEach is caught by the quick check of its property (see `tools/seed.py`, and vcheck).')
open(V+'DESIGN.md','w').write('\n'.join(out)+'\n')
