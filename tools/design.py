#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/*.md, contracts/meta.json, properties.jsonl and the planted bugs"""
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
meta=json.load(open(V+'/contracts/meta.json'))
src={f:open(f).read() for f in sorted(glob.glob(V+'/contracts/*.cpp'))}
cost={}
seeds={}
for d in sorted(glob.glob(V+'/seeded/*')):
    seeds[os.path.basename(d)]=json.load(open(d+'/meta.json'))
ev=json.load(open(V+'/tools/design/caught.json'))
H=open(V+'/tools/design/head.md').read()
out=[H,'\n## 5. The properties, one by one\n']
for p in props:
    i=p['id']; m=meta[i]
    cs=[]
    for f,t in src.items():
        for n,fn in re.findall(r'CONTRACT\(('+i+r'_\w+)\s*,\s*"([^"]*)"',t): cs.append((n,fn,os.path.basename(f)))
    out.append('### %s %s\n\n%s\n'%(i,p['title'],m['level_note']))
    out.append('Why tests cannot: %s\n'%p['why_tests_cant'])
    out.append('Contracts: '+'; '.join('`%s` (%s) on %s'%c[:1]+() if False else '`%s` in %s on %s'%(c[0],c[2],c[1]) for c in cs)+'.\n')
    u=json.load(open(V+'/contracts/uses.json')).get(i)
    if u: out.append('Callee contracts discharged with it: '+', '.join('`%s`'%x for x in u)+'.\n')
    if m['bounded']: out.append('Enumerated, not proved beyond: '+'; '.join(m['bounded'])+'.\n')
    if m['trusted']: out.append('Trusted or assumed here: '+'; '.join(m['trusted'])+'.\n')
    if m['assumptions']: out.append('Preconditions: '+'; '.join(m['assumptions'])+'.\n')
    if m['lean']: out.append('Lean lemmas rechecked: '+', '.join(m['lean'])+'.\n')
    if i in cost: out.append('Cost: %s.\n'%cost[i])
    sd=[s for s in seeds if seeds[s]['property']==i]
    if sd: out.append('Planted bugs: '+', '.join('%s%s'%(s,' ('+ev[s]+')' if s in ev else '') for s in sd)+'.\n')
out.append(open(V+'/tools/design/tail.md').read())
out.append('| planted bug | property | needs | result |\n|---|---|---|---|')
tbl=['| %s | %s | %s | %s |'%(s,seeds[s]['property'],' '.join(str(seeds[s]['needs']).split()),ev.get(s,'not run')) for s in seeds]
out.append('\n'.join(tbl)+'\n')
open(V+'/DESIGN.md','w').write('\n'.join(out))
