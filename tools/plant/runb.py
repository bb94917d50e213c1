#!/usr/bin/env python3
"""runb.py [-a] ids... : apply each bug to /repo, run its check (or all with -a), record in /tmp/plant/res.json"""
import sys,os,subprocess,json,time
R='/tmp/plant/res.json'
res=json.load(open(R)) if os.path.exists(R) else {}
a=sys.argv[1:]; alln='-a' in a; a=[x for x in a if x!='-a']
ids=a or sorted(d for d in os.listdir('/verif/seeded') if d not in res)
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True,errors="replace")
for i in ids:
    prop=json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
    checks=[f'C{n:02}' for n in range(1,29)] if alln else [prop]
    assert not sh('git -C /repo status --porcelain').stdout
    r=sh(f'git -C /repo apply /verif/seeded/{i}/patch.diff'); assert r.returncode==0,r.stderr
    try:
        for c in checks:
            t=time.time(); r=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c}')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = r.returncode==1 and any(f'property={c}' in l for l in v)
            res.setdefault(i,{})[c]='caught' if ok else ('quiet' if r.returncode==0 else f'rc={r.returncode}')
            out=r.stdout.strip().splitlines()
            print(i,c,res[i][c],f'{time.time()-t:.0f}s', (v[0][:0]+' '.join(out)[:260]) if ok else ' '.join(out)[-200:],flush=True)
    finally:
        sh('git -C /repo checkout -- .')
    json.dump(res,open(R,'w'),indent=1)
