import sys,subprocess
def edit(f,subs,msg):
    p='/tmp/wt/scantool/'+f; s=open(p).read()
    for a,b in subs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
    subprocess.check_call(['git','-C','/tmp/wt','commit','-qam','fix: '+msg])
