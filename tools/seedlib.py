import os, subprocess, shutil, json, sys
ENV=dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:"+os.environ['PATH'], GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off")
DEMO='''#!/bin/bash
# Exit 0 if the behaviour is right, 1 if it is not.  Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
timeout 250 go test -vet=off -count=1 XFLAGX-timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG || exit 1
'''
SEEDED='/verif/seeded'
def seed(id, prop, pkg, edits, test, needs, breaks, race=False):
    d=os.path.join(SEEDED,id)
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    w='/tmp/seedwork/repo'
    shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',w])
    for f,a,b in edits:
        p=os.path.join(w,f); s=open(p).read()
        if s.count(a)!=1: print(id,'EDIT MATCHES',s.count(a),'times:',a[:60]); return
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo_test.go','w').write(test)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',pkg).replace('XFLAGX','-race ' if race else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    # verify
    r=subprocess.run(['go','build','./...'],cwd=w,env=ENV,capture_output=True,text=True)
    if r.returncode: print(id,'BUILD',r.stderr); return
    r=subprocess.run('go test -vet=off -count=1 ./...',shell=True,cwd=w,env=ENV,capture_output=True,text=True)
    if r.returncode: print(id,'TESTS FAIL',r.stdout[-800:]); return
    bad=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    good=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    ok = good.returncode==0 and bad.returncode!=0
    print(id,prop,'ok' if ok else 'DEMO WRONG good=%d bad=%d'%(good.returncode,bad.returncode))
    if good.returncode: print(good.stdout[-1500:],good.stderr[-500:])
    if ok and ('[build failed]' in bad.stdout or 'FAIL' not in bad.stdout): print(bad.stdout[-600:])
    elif '-v' in os.environ.get('V',''): print(bad.stdout[-600:])
