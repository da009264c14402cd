#!/usr/bin/env python3
# writes DESIGN.md from tools/design_head.md, properties.jsonl, the harnesses and tools/design_notes.py
import json,re,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from design_notes import N
o=[open(V+'/tools/design_head.md').read().rstrip(),'','## Per property','',
'Every entry: what is generated, the oracle that decides, why generated search reaches it, and what is left open on purpose.  Cost is the number of cases of the quick / thorough tier (quick: 15-60 s on 8 cores).','']
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    hs=sorted(glob.glob(V+'/harness/%s*.cpp'%i))
    o.append('### %s  %s'%(i,p['title']))
    for h in hs:
        t=open(h).read()
        r=''.join(re.findall(r'"((?:[^"\\]|\\.)*)"',t[t.index('prop_rule ='):t.index(';',t.index('non-trivial',t.index('prop_rule =')))+1])) if 'prop_rule' in t else ''
        q=re.search(r'quick_cases = (\d+), pbt::thorough_cases = (\d+)',t)
        o.append('* generated (`harness/%s`, %s / %s cases): %s'%(os.path.basename(h),q.group(1),q.group(2),r))
    n=N.get(i)
    if n:
        o.append('* oracle: %s'%n[0])
        o.append('* beyond the tests: %s'%n[1])
        if n[2]: o.append('* left open: %s'%n[2])
    o.append('')
tail=V+'/tools/design_tail.md'
if os.path.exists(tail): o.append(open(tail).read().rstrip())
o+=['','## Planted bugs and the checks that catch them','','| bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); b=os.path.basename(os.path.dirname(d))
    o.append('| %s | %s | %s | %s |'%(b,m['property'],m['needs'].replace('|','/'),m.get('caught_by','%s'%m['property'])))
kf=open(V+'/KNOWN_FINDINGS.txt').read().strip().split('\n')
o+=['','## Defects of freediag found','','%d defects were repaired by `fix:` commits, each found by (or while building) the check named; the recorded findings are the others.  The list is `KNOWN_FINDINGS.txt`:'%sum(l.startswith('fixed:') for l in kf),'']
import collections
c=collections.Counter(re.match(r'fixed: property=(\S+)',l).group(1) for l in kf if l.startswith('fixed:'))
o.append('repaired per check: '+', '.join('%s %d'%x for x in sorted(c.items())))
o.append('')
o+=['* '+l for l in kf if l.startswith('finding:')]
open(V+'/DESIGN.md','w').write('\n'.join(o)+'\n')
