# nasty.py FILE [CASES]: FILE is python defining B=[(name, prop[,prop...], [(file,[(old,new)...])...])]; applies each in a scratch clone, runs the checks
import sys,subprocess,os,concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:] 
N=3
for k in range(N):
    M='/tmp/nz%d'%k
    if not os.path.isdir(M): subprocess.check_call(['git','clone','-q','/tmp/wt',M])
    subprocess.check_call('git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD'%(M,M),shell=True)
import queue
q=queue.Queue()
for k in range(N): q.put(k)
def one(b):
    name,props,edits=b
    k=q.get()
    M='/tmp/nz%d'%k
    try:
        subprocess.check_call('git -C %s checkout -q -- .'%M,shell=True)
        for f,subs in edits:
            p=M+'/scantool/'+f; s=open(p).read()
            for a,c in subs:
                if s.count(a)!=1: return name+' COUNT %d: %s'%(s.count(a),a)
                s=s.replace(a,c)
            open(p,'w').write(s)
        out=[]
        for pid in props.split(','):
            r=subprocess.run(['nice','python3','/verif/check.py','run',pid],env=dict(os.environ,VERIF_REPO=M,VERIF_BUILD='/tmp/nzb%d'%k),capture_output=True,text=True)
            o=[l for l in (r.stdout+r.stderr).split('\n') if l.strip() and not l.startswith(' ') and not l.strip().isdigit()]
            out.append('%s=%s %s'%(pid,{0:'MISSED',1:'caught'}.get(r.returncode,r.returncode),(o[1][:140] if r.returncode and len(o)>1 else '')))
        return name+' | '+' | '.join(out)
    finally: q.put(k)
bs=[b for b in ns['B'] if not only or b[0] in only]
with cf.ThreadPoolExecutor(N) as ex:
    for r in ex.map(one,bs): print(r,flush=True)
