"""plant(id, prop, [(file, old, new)...], demo_go, needs, breaks)"""
import json, os, subprocess, shutil, sys, tempfile
SEED='/verif/seeded'
DEMO='''#!/bin/bash
# Runs demo.go against the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
sed 1d "$here/demo.go.txt" > "$t/demo.go"
printf '{"Replace": {"%s/zz_demo/main.go": "%s/demo.go"}}' "$repo" "$t" > "$t/overlay.json"
timeout 200 go run @F@ -overlay "$t/overlay.json" ./zz_demo
'''
def sh(c,cwd=None,env=None):
    return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True)
def plant(id, prop, edits, demo, needs, breaks, flags=''):
    only=sys.argv[1:]
    if only and id not in only: return
    w=tempfile.mkdtemp(prefix='wt_',dir='/tmp')
    d=os.path.join(SEED,id)
    try:
        sh('git -C /repo archive HEAD | tar x -C %s'%w); sh('git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x',cwd=w)
        for f,a,b in edits:
            p=os.path.join(w,f); s=open(p).read()
            if s.count(a)!=1: print(id,'EDIT NOT UNIQUE',f,s.count(a)); return
            open(p,'w').write(s.replace(a,b))
        diff=sh('git diff',cwd=w).stdout
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.go.txt','w').write('// demo program; demo.sh strips this line\n'+demo)
        open(d+'/demo.sh','w').write(DEMO.replace('@F@',flags))
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        # in the real /repo
        r=sh('git -C /repo status --short').stdout
        assert not r.strip(), r
        base=sh('bash %s/demo.sh'%d,cwd='/repo')
        a=sh('git -C /repo apply %s/patch.diff'%d)
        try:
            b=sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/plant/o.json')
            t=json.load(open('/tmp/plant/o.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            broken=st-set(t['passed'])
            bad=sh('bash %s/demo.sh'%d,cwd='/repo')
            caught=sh('python3 run.py %s quick'%prop,cwd='/verif')
        finally:
            sh('git -C /repo checkout -- .')
        ok=base.returncode==0 and a.returncode==0 and b.returncode==0 and not broken and bad.returncode!=0
        print(id,prop,'VALID' if ok else 'INVALID base=%d apply=%d build=%d broken=%s bad=%d'%(base.returncode,a.returncode,b.returncode,sorted(broken)[:3],bad.returncode),
              'CAUGHT' if caught.returncode==1 else 'MISSED rc=%d'%caught.returncode, flush=True)
        if not ok: print(base.stderr[-400:],b.stdout[-400:],b.stderr[-400:],bad.stdout[-300:])
        if caught.returncode not in(0,1): print(caught.stdout[-500:],caught.stderr[-500:])
    finally:
        shutil.rmtree(w)
