"""plant.py write|try ID...   bugs are in bugs.py"""
import sys, os, subprocess, json, importlib.util, shutil
sys.path.insert(0,'/verif/tools')
import bugs
V='/repo/capi/src/implementation/visibility_graphs/code/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i):
    b=bugs.B[i]; d='/verif/seeded/'+i
    os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for f,old,new in b['edits']:
            p=f if f.startswith('/') else V+f if f.endswith(('.cpp','.hpp')) else '/repo/'+f
            s=open(p).read(); assert s.count(old)==b.get('count',1), (i,f,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=sh('git -C /repo diff').stdout
    finally: sh('git -C /repo checkout -- .')
    open(d+'/patch.diff','w').write(diff)
    if 'py' in b:
        open(d+'/demo.sh','w').write('#!/bin/bash\n# Run in the root of the repository after its build\nexec /opt/capi/pypy/bin/python -B "$(dirname "$0")/demo.py"\n')
        open(d+'/demo.py','w').write(bugs.PRE+b['py'].lstrip('\n'))
    else:
        open(d+'/demo.sh','w').write(bugs.CPPSH)
        open(d+'/demo.cpp','w').write(bugs.CPPPRE+b['cpp'].lstrip('\n'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
def demo(i):
    tmp='/tmp/w/plantdemo'; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree('/verif/seeded/'+i,tmp)
    for f in ('patch.diff','meta.json'): os.unlink(tmp+'/'+f)
    r=subprocess.run(['bash',tmp+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=300)
    return r
def tests():
    o='/tmp/w/o.json'
    if os.path.exists(o): os.unlink(o)
    sh('bash /opt/vp/test.sh '+o)
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['passed'])
    r=json.load(open(o)); return sorted(base-set(r['passed']))
if sys.argv[1]=='write':
    for i in sys.argv[2:] or bugs.B: make(i)
elif sys.argv[1]=='try':
    ids=sys.argv[2:] or list(bugs.B)
    for i in ids: make(i)
    b=sh('bash /opt/vp/build.sh'); assert b.returncode==0
    for i in ids:
        r=demo(i); print(i,'clean demo',r.returncode, '' if r.returncode==0 else (r.stdout+r.stderr)[-1500:], flush=True)
    for i in ids:
        a=sh('git -C /repo apply /verif/seeded/%s/patch.diff'%i); assert a.returncode==0,a.stderr
        try:
            b=sh('bash /opt/vp/build.sh')
            if b.returncode: print(i,'DOES NOT BUILD',b.stdout[-1500:]+b.stderr[-500:]); continue
            t=tests(); r=demo(i)
            print(i,'tests failing:',len(t),t[:3],'| demo rc',r.returncode,(r.stdout+r.stderr)[-300:].replace('\n',' / '), flush=True)
            c=sh('cd /verif && python3 check.py '+bugs.B[i]['property'])
            print(i,'check',bugs.B[i]['property'],'rc',c.returncode,c.stdout.strip()[-200:].replace('\n',' / '), flush=True)
        finally: sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
