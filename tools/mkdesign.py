#!/usr/bin/env python3
import json, re, glob, os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
docs={}
for f in sorted(glob.glob(V+'/harness/props/c*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (C\d\d_\w+)\(',s):
        d=' '.join(l.lstrip('/ ').strip() for l in m.group(1).splitlines())
        if d.startswith(m.group(2)): d=d[len(m.group(2)):].strip()
        docs.setdefault(m.group(2)[:3],[]).append((m.group(2),d))
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m))
caught={}
if os.path.exists(V+'/tools/caught.txt'):
    for l in open(V+'/tools/caught.txt'):
        p=l.split()
        if len(p)>=2: caught[p[0]]=p[1]
ora=eval(open(V+'/tools/design_oracles.py').read())
out=[open(V+'/tools/design_head.md').read()]
out.append('## 2. Per property\n\nEach harness is listed with what is arbitrary in it (thorough bounds in parentheses).\n')
for p in props:
    i=p['id']; out.append('### %s %s\n'%(i,p['title']))
    out.append(ora.get(i,'').strip()+'\n')
    for n,d in docs.get(i,[]): out.append('- `%s`: %s'%(n,d))
    out.append('')
out.append(open(V+'/tools/design_tail.md').read())
out.append('## 6. Planted bugs\n\n%d changes under `seeded/`, each confirmed in a scratch tree (builds, passes the 350 tests, its demo fails with it and passes without). "caught by" is the harness of the own property\'s quick check that reported it (`tools/runseeds.sh`).\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|'%sum(map(len,seeds.values())))
for i in sorted(seeds):
    for n,m in seeds[i]:
        out.append('| %s | %s | %s | %s |'%(n,i,re.sub(r'\s+',' ',m['what_it_breaks']).replace('|','\\|')[:160],caught.get(n,'not detected (5a)')))
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
