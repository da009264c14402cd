# mut.py ID CASES FILE old new [old new ...]: tries each replacement alone in a scratch clone of /tmp/wt
import sys,subprocess,os
pid,cases,f=sys.argv[1:4]
M='/tmp/mutwt'
if not os.path.isdir(M): subprocess.check_call(['git','clone','-q','/tmp/wt',M])
subprocess.check_call('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD'%(M,M),shell=True)
a=sys.argv[4:]
for old,new in zip(a[::2],a[1::2]):
    p=M+'/scantool/'+f; s=open(p).read()
    if s.count(old)<1: print('NOT FOUND',old); continue
    open(p,'w').write(s.replace(old,new,1))
    r=subprocess.run(['python3','/verif/check.py','run',pid],env=dict(os.environ,VERIF_REPO=M,VERIF_BUILD='/tmp/mutb',PBT_CASES=cases),capture_output=True,text=True)
    o=(r.stdout+r.stderr).split('\n')
    print(r.returncode,'|',old.strip()[:60],'->',new.strip()[:40],'|',[l for l in o if l.strip() and not l.startswith(' ')][1][:150] if r.returncode else '')
    open(p,'w').write(s)
