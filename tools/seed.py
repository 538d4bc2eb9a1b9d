#!/usr/bin/env python3
"""seed.py SPEC.py : plants one bug. SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], pkg, test (Go test source).
Confirms in a scratch copy that it builds, passes the existing tests, and that the demo separates the trees; then keeps it
under /verif/seeded/<id>. The check is then run against a scratch copy with it."""
import sys,os,subprocess,tempfile,json,shutil
V='/verif'
DEMO='''#!/bin/bash
# run with cwd /repo: exit 0 without the bug, nonzero with it
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "%(pkg)s" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run 'TestDemo' "./%(pkg)s"
'''
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local')
def run(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=env,capture_output=True,text=True,**k)
def plant(ns):
    i=ns['id']; d=f'{V}/seeded/{i}'
    t=tempfile.mkdtemp(prefix='seed'); w=t+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',w],check=True)
        os.makedirs(d,exist_ok=True)
        open(d+'/demo_test.go.txt','w').write(ns['test'].lstrip())
        open(d+'/demo.sh','w').write(DEMO%{'pkg':ns['pkg']}); os.chmod(d+'/demo.sh',0o755)
        r=run(['bash',d+'/demo.sh'],w)
        if r.returncode!=0: return 'demo fails on unchanged tree\n'+r.stdout+r.stderr
        for f,o,n in ns['edits']:
            s=open(w+'/'+f).read()
            if s.count(o)!=1: return f'edit {f}: {s.count(o)} matches of {o!r}'
            open(w+'/'+f,'w').write(s.replace(o,n))
        p=run(['git','diff'],w).stdout
        open(d+'/patch.diff','w').write(p)
        json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
        r=run(['go','build','./...'],w)
        if r.returncode: return 'does not build\n'+r.stderr
        r=run(['go','test','-vet=off','-count=1','./...'],w)
        if r.returncode: return 'existing tests fail\n'+r.stdout[-1500:]
        r=run(['bash',d+'/demo.sh'],w)
        if r.returncode==0: return 'demo passes with the bug'
        return None
    finally: shutil.rmtree(t)
def checkbug(i,prop,tier='quick'):
    d=f'{V}/seeded/{i}'
    t=tempfile.mkdtemp(prefix='seedchk'); w=t+'/repo'
    try:
        subprocess.run(['git','clone','-q','/repo',w],check=True)
        subprocess.run(['git','-C',w,'apply',d+'/patch.diff'],check=True)
        r=subprocess.run(['bash',V+'/check.sh',prop,tier],cwd=V,env=dict(env,GOVC_REPO=w),capture_output=True,text=True)
    finally: shutil.rmtree(t)
    return r.returncode,[l for l in r.stdout.splitlines() if 'VIOLATION' in l or r.returncode>1][:5]
if __name__=='__main__':
    if sys.argv[1]=='check':
        for i in sys.argv[2:] or sorted(os.listdir(V+'/seeded')):
            m=json.load(open(f'{V}/seeded/{i}/meta.json'))
            print(i,m['property'],*checkbug(i,m['property']),flush=True)
    else:
        src=open(sys.argv[1]).read()
        for part in src.split('\n#---\n'):
            ns={}; exec(part,ns)
            e=plant(ns)
            if e:
                print(ns['id'],'REJECTED:',e); shutil.rmtree(f"{V}/seeded/{ns['id']}",ignore_errors=True); continue
            print(ns['id'],'planted',*checkbug(ns['id'],ns['prop']),flush=True)
