#!/usr/bin/env python3
# seed.py SPEC.py: makes planted bugs from a list SEEDS of dicts (id, property, needs, breaks, edits=[(file, old, new)], demo=Go source or
# a dict of file name -> text). Each is confirmed in a scratch copy of /repo: it applies, builds, passes the stable tests, and its demo
# passes without it and fails with it. Confirmed ones are written to /verif/seeded/<id>/.
import sys,os,subprocess,json,shutil,runpy
spec=runpy.run_path(sys.argv[1])
only=sys.argv[2:]
S='/tmp/seedrepo'
env=dict(os.environ,PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
def sh(c,**k): return subprocess.run(c,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
subprocess.run('rm -rf /tmp/seedrepo; git -C /repo worktree prune; git clone -q /repo /tmp/seedrepo',shell=True)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# Run with cwd /repo: exit 0 when the code behaves, 1 when it does not.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo/main.go\\":\\"$d/main.go.txt\\"}}" > "$o"
go run -overlay "$o" ./zz_demo
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- . && git clean -fdq',cwd=S)
    d='/tmp/seedout/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    demo=s['demo']
    if isinstance(demo,str): demo={'main.go.txt':demo,'demo.sh':DEMO}
    for k,v in demo.items(): open(d+'/'+k,'w').write(v)
    os.chmod(d+'/demo.sh',0o755)
    r=sh('bash '+d+'/demo.sh',cwd=S)
    if r.returncode!=0: print(s['id'],'DEMO FAILS ON CLEAN',r.stdout[-1500:]); continue
    ok=True
    for f,o,n in s['edits']:
        t=open(S+'/'+f).read()
        if t.count(o)!=1: print(s['id'],'EDIT MATCHES',t.count(o),f,repr(o[:60])); ok=False; break
        open(S+'/'+f,'w').write(t.replace(o,n))
    if not ok: continue
    p=sh('git diff',cwd=S).stdout
    open(d+'/patch.diff','w').write(p)
    r=sh('gofmt -l pkg internal cmd 2>/dev/null; go build ./...',cwd=S)
    if r.returncode!=0: print(s['id'],'BUILD',r.stdout[-1500:]); continue
    if r.stdout.strip(): print(s['id'],'gofmt',r.stdout.strip())
    r=sh('go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed_test.json; python3 /opt/vp/results.py /tmp/seed_res.json gojson:/tmp/seed_test.json',cwd=S)
    m=base-set(json.load(open('/tmp/seed_res.json'))['passed'])
    if m: print(s['id'],'TESTS CATCH IT',len(m),sorted(m)[:3]); continue
    r=sh('timeout 250 bash '+d+'/demo.sh',cwd=S)
    if r.returncode==0: print(s['id'],'DEMO PASSES WITH THE BUG',r.stdout[-500:]); continue
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    t='/verif/seeded/'+s['id']; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
    print(s['id'],'OK:',r.stdout.strip()[-200:].replace('\n',' | '))
