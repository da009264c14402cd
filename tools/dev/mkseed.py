"""mkseed(name, prop, [(file,[(old,new)])], demo_c or None, needs, breaks, files={}, demo_sh=None)"""
import os,subprocess,json,shutil,sys
W='/tmp/sw'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def build(d):
    r=sh(f'cmake -S {d} -B {d}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_DIAGTEST=ON -DBUILD_SCHEDSET=ON -DBUILD_SCHEDSET_DEBUG=ON -DCMAKE_C_FLAGS=-Wno-error && ninja -C {d}/_build')
    if r.returncode: print(r.stdout[-2000:],r.stderr[-2000:]); return False
    return True
BAD={'l0_dumb_halfdup','l0_dumb_halfdup_2'}
def tests(d):
    r=sh(f'cd {d}/_build && ctest -j8 2>&1')
    import re
    f=set(re.findall(r'- (\S+) \(',r.stdout.split('The following tests FAILED')[1])) if 'The following tests FAILED' in r.stdout else set()
    return f-BAD
def mkseed(name,prop,edits,demo_c,needs,breaks,files={},demo_sh=None,check=True):
    s='/verif/seeded/'+name
    os.makedirs(s,exist_ok=True)
    if os.path.exists(W): shutil.rmtree(W,ignore_errors=True)
    sh(f'git clone -q /tmp/wt {W}')
    for f,subs in edits:
        p=f'{W}/scantool/{f}'; t=open(p).read()
        for a,b in subs:
            assert t.count(a)==1,(f,t.count(a),a)
            t=t.replace(a,b)
        open(p,'w').write(t)
    d=sh(f'git -C {W} diff').stdout
    open(s+'/patch.diff','w').write(d)
    if demo_c is not None:
        open(s+'/demo.c','w').write(demo_c)
        shutil.copy('/tmp/seedlib/l0.h',s+'/l0.h')
    for k,v in files.items(): open(s+'/'+k,'w').write(v)
    open(s+'/demo.sh','w').write(demo_sh or open('/tmp/seedlib/demo.sh').read())
    os.chmod(s+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(s+'/meta.json','w'),indent=1)
    ok=build(W)
    if not ok: print(name,'BUILD FAIL'); return
    f=tests(W); r1=sh('bash '+s+'/demo.sh',cwd=W)
    sh(f'git -C {W} checkout -- .'); build(W); r0=sh('bash '+s+'/demo.sh',cwd=W)
    print(name,'tests failing:',f,'| demo clean:',r0.returncode,'patched:',r1.returncode, '|', (r1.stdout+r1.stderr).strip()[-200:])
    if r0.returncode: print('  CLEAN:',(r0.stdout+r0.stderr)[-800:])
    bad = bool(f) or r0.returncode or not r1.returncode
    if check and not bad:
        sh(f'git -C {W} apply {s}/patch.diff')
        r=sh(f'cd /verif; VERIF_REPO={W} VERIF_BUILD=/tmp/sb python3 check.py run {prop}')
        print('  check',prop,'->',r.returncode, [l for l in r.stdout.splitlines() if not l.isdigit()][:3])
    shutil.rmtree(W,ignore_errors=True)
    return not bad
