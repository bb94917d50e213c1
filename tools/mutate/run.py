#!/usr/bin/env python3
"""Mutation run: applies each change of mutate's list to a copy of /repo; those
that compile and pass the existing tests are given to the checks, from copies
of the committed work.  run.py LIST.jsonl OUT.jsonl [workers] [sample%]
Copies live in /tmp/mut and are removed at the end."""
import sys,os,json,subprocess,shutil,threading,queue,random,hashlib,time,signal
LIST,OUT=sys.argv[1:3]; NW=int(sys.argv[3]) if len(sys.argv)>3 else 4; SAMPLE=float(sys.argv[4]) if len(sys.argv)>4 else 100
ALL=['C%02d'%i for i in range(1,29)]
FIRST={'parser.go':'C02 C03 C04 C01 C05 C07 C12','scanner.go':'C02 C03 C04 C01 C05 C12','macros.go':'C02 C03 C12 C13','ast/ast.go':'C07 C04 C06','ast/walk.go':'C06 C07',
 'tex/':'C08 C10 C11 C09 C15 C16 C19 C18','mtex/macros.go':'C15 C16 C13 C12 C17 C18 C19','mtex/parser.go':'C13 C17 C12 C14 C15 C16 C18 C19','mtex/render.go':'C18 C12 C19 C23 C13',
 'mtex/symbols':'C27 C17','font/':'C20 C14 C21 C26 C12','drawtex/drawimg':'C22 C23 C26 C21','drawtex/drawpdf':'C25','drawtex/canvas':'C22 C26','cmd/mtex-render/gio':'C28','cmd/mtex-render/fonts':'C28','cmd/mtex-render/main':'C24 C28','internal/tex2unicode':'C14 C13','token/':'C02 C07'}
def order(f):
    for k,v in FIRST.items():
        if f.startswith(k):
            v=v.split(); return v+[c for c in ALL if c not in v]
    return ALL
ENV=dict(os.environ,HOME='/root',GOPROXY='off',GOTOOLCHAIN='local',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/tmp/mut/cache',VMON_FAILFAST='1',VERIF_SEED='1',VMON_SHARDS='2')
ENV['PATH']='/opt/veriftools/go1.23.12/bin:'+ENV['PATH']
def sh(c,t=600,**k):
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True,env=ENV,**k)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,''
done={}
if os.path.exists(OUT):
    for l in open(OUT):
        r=json.loads(l); done[r['key']]=r
lock=threading.Lock(); q=queue.Queue()
def key(m): return hashlib.sha1(json.dumps([m['File'],m['From'],m['To'],m['New']]).encode()).hexdigest()[:12]
ms=[json.loads(l) for l in open(LIST)]
random.Random(7).shuffle(ms)
for m in ms:
    k=key(m)
    if k in done or int(k[:6],16)%10000>=SAMPLE*100: continue
    q.put((k,m))
print(q.qsize(),'mutants',flush=True)
def emit(r):
    with lock:
        open(OUT,'a').write(json.dumps(r)+'\n')
def worker(i):
    w=f'/tmp/mut/w{i}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    sh(f'cp -a /repo {w}/repo; git clone -q /verif {w}/verif')
    # the copies refer to each other instead of to /repo.
    sh(f'''cd {w}/verif && grep -rlE '/repo|go-build' mon/go.mod run.sh mon/*.go gui env.sh | xargs sed -i 's#/repo\\b#{w}/repo#g; s#/root/.cache/go-build#/tmp/mut/cache#' ''')
    while True:
        try: k,m=q.get_nowait()
        except queue.Empty: break
        if os.path.exists('/tmp/mut/stop'): break
        f=f'{w}/repo/{m["File"]}'; src=open(f,'rb').read(); new=src[:m['From']]+m['New'].encode()+src[m['To']:]
        r=dict(m,key=k); t=time.time()
        try:
            open(f,'wb').write(new)
            c,o=sh(f'cd {w}/repo && go build ./...',200)
            if c: r['res']='build'; continue
            c,o=sh(f'cd {w}/repo && ulimit -v 16000000; timeout 90 go test -vet=off ./... 2>&1',200)
            if c: r['res']='tests'; continue
            r['res']='survived'
            ch=order(m['File'])
            slow=[x for x in ('C21','C24','C28') if x not in ' '.join(v for kk,v in FIRST.items() if m['File'].startswith(kk))]
            first=[v for kk,v in FIRST.items() if m['File'].startswith(kk)][0].split()
            if m['File'][:4] in ('tex/','mtex'): first+=[x for x in ('C13','C17','C18','C12') if x not in first]
            passes=[(x,0.05) for x in first]+[(x,0.4) for x in first[:5]]
            if 'C21' in first: passes=[p for p in passes if p!=('C21',0.4)]
            for chk,scale in passes:
                c,o=sh(f'cd {w}/verif && VMON_SCALE={scale} nice -n 5 timeout 240 ./run.sh {chk}',500)
                v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
                if c==1 and v: r['res']='caught'; r['by']=chk; r['msg']=v[0][:200]; break
                if c!=0: r.setdefault('odd',[]).append([chk,c,o[-300:]])
        finally:
            open(f,'wb').write(src); r['sec']=round(time.time()-t,1)
            if not(r.get('res') is None): emit(r)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree('/tmp/mut',ignore_errors=True)
print('MUTATION-DONE',flush=True)
