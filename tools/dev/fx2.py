import subprocess,re
F='/verif/KNOWN_FINDINGS.txt'
out=subprocess.check_output("git -C /repo log --reverse --format='%h %s'",shell=True,text=True).strip().split('\n')
by={l.split(' ',1)[1].replace('fix: ','',1):l.split(' ',1)[0] for l in out if ' fix: ' in l}
hs=set(by.values())
import sys
extra=dict(a.split('=',1) for a in sys.argv[1:])   # hash=prop
L=[];seen=set()
for l in open(F).read().strip().split('\n'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m and m.group(2) not in hs:
        h=by.get(m.group(3))
        if not h: print('dropped',l); continue
        l='fixed: property=%s %s %s'%(m.group(1),h,m.group(3)); seen.add(h)
    elif m: seen.add(m.group(2))
    L.append(l)
for msg,h in by.items():
    if h not in seen:
        if h in extra: L.append('fixed: property=%s %s %s'%(extra[h],h,msg))
        else: print('unlisted',h,msg)
open(F,'w').write('\n'.join(L)+'\n')
