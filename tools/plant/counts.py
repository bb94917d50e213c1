import subprocess,os,re
base='c99af45'
def g(*a,**k): return subprocess.run(['git','-C','/repo',*a],capture_output=True,text=True,errors='replace',**k).stdout
cache={}
def added(p):
    if p not in cache:
        out=set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@",g('diff','-U0','--no-renames',base,'HEAD','--',p)):
            out.update(range(int(m[1]),int(m[1])+int(m[2] or 1)))
        cache[p]=out
    return cache[p]
env=dict(os.environ,GIT_INDEX_FILE='/tmp/own.idx')
bad=[]
for b in sorted(os.listdir('seeded')):
    subprocess.run(['git','-C','/repo','read-tree','HEAD'],env=env,check=True)
    subprocess.run(['git','-C','/repo','apply','--cached','/verif/seeded/%s/patch.diff'%b],env=env,check=True)
    tree=subprocess.run(['git','-C','/repo','write-tree'],env=env,capture_output=True,text=True).stdout.strip()
    ok=False
    for path in g('diff','--name-only','HEAD',tree).split():
        total=len(g('show','HEAD:'+path).splitlines())
        t=g('diff','-U0','HEAD',tree,'--',path)
        for h in re.split(r"(?m)^(?=@@ )",t)[1:]:
            m=re.match(r"@@ -(\d+)(?:,(\d+))? ",h)
            at,n=int(m[1]),int(m[2] or 1)
            old=[x not in added(path) for x in (range(at,at+n) if n else (at,at+1)) if 1<=x<=total]
            if old and (any(old) if n else all(old)) and re.search(r'(?m)^[-+]\s*[^/\s]',h.split('\n',1)[1]): ok=True
    if not ok: bad.append(b)
print(len(bad),*bad)
