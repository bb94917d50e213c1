#!/usr/bin/env python3
"""make planted bugs: tool.py make bugs.py [id...]"""
import sys,os,subprocess,json,shutil,re,importlib.util
W='/tmp/wt'; SEED='/verif/seeded'
GOENV=dict(os.environ,HOME='/root',GOPROXY='off',GOTOOLCHAIN='local',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod'); GOENV['PATH']='/opt/veriftools/go1.23.12/bin:'+GOENV['PATH']
DEMO='''#!/bin/bash
# run in the repository's root, after the build
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOFLAGS=-mod=readonly
exec timeout 250 go run %s"$dir/demo.go"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def fresh():
    if not os.path.exists(W): sh(f'cp -a /repo {W}')
    sh(f'git -C {W} checkout -q -- . ; git -C {W} clean -fdq')
    if sh(f'git -C {W} rev-parse HEAD').stdout!=sh('git -C /repo rev-parse HEAD').stdout:
        shutil.rmtree(W); sh(f'cp -a /repo {W}')
def baseblame(f):
    o=sh(f'git -C /repo blame -s -l -- {f}').stdout.splitlines()
    base=sh("git -C /repo log --format=%H | tail -1").stdout.strip()
    r=[]
    for l in o:
        h=l.split()[0].lstrip('^'); r.append(base.startswith(h[:30]))
    return r
def make(b):
    fresh(); d=f'{SEED}/{b["id"]}'
    for f,old,new in b['edits']:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(old)!=1: return f'edit of {f}: {s.count(old)} matches: {old[:60]!r}'
        open(p,'w').write(s.replace(old,new))
    sh(f'cd {W} && gofmt -l . ',env=GOENV)
    diff=sh(f'git -C {W} diff').stdout
    # removed lines must be base lines
    warn=''; cur=None; anybase=False; mine=[]
    for l in sh(f'git -C {W} diff -U0').stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]; bl=baseblame(cur)
        m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
        if m:
            a=int(m[1]); n=int(m[2] or 1)
            for i in range(a,a+n):
                if bl[i-1]: anybase=True
                else: mine.append((cur,i))
    if not anybase: warn=' NO-BASE-LINE'
    elif mine: warn=f' touches own lines {mine[:3]}'
    r=sh(f'cd {W} && go build ./... && go vet . ./ast ./tex ./mtex/... ./drawtex/... ./font/... ./cmd/mtex-render',env=GOENV)
    if r.returncode: return 'build: '+r.stderr[-300:]
    r=sh(f'cd {W} && go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok | tail -15',env=GOENV)
    if 'FAIL' in r.stdout: return 'tests fail: '+r.stdout[-700:]
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    if 'sh' in b: open(d+'/demo.sh','w').write(b['sh'])
    else:
        open(d+'/demo.sh','w').write(DEMO%('-race ' if b.get('race') else ''))
        open(d+'/demo.go','w').write(b['demo'])
        r=sh(f'gofmt -l {d}/demo.go'); 
        sh(f'gofmt -w {d}/demo.go')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r1=sh(f'cd {W} && {d}/demo.sh',env=GOENV)
    r0=sh(f'cd /repo && {d}/demo.sh',env=GOENV)
    if r0.returncode!=0 or r1.returncode==0:
        shutil.rmtree(d)
        return f'DEMO bad: unpatched={r0.returncode} patched={r1.returncode}\n u:{(r0.stdout+r0.stderr)[-500:]}\n p:{(r1.stdout+r1.stderr)[-400:]}'
    a=sh(f'git -C /repo apply --check {d}/patch.diff')
    if a.returncode: return 'apply: '+a.stderr
    return 'OK'+warn+'  | '+(r1.stdout+r1.stderr).strip().splitlines()[-1][:150] if (r1.stdout+r1.stderr).strip() else 'OK'+warn
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want=sys.argv[2:]
for b in m.BUGS:
    if want and b['id'] not in want: continue
    if not want and os.path.exists(f'{SEED}/{b["id"]}'): continue
    print(b['id'],':',make(b),flush=True)
