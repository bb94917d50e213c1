#!/usr/bin/env python3
"""table.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((m['property'],d,m['needs'].replace('|','\\|').replace('\n',' ')))
out='| bug | needs, to show | caught by |\n|---|---|---|\n'+''.join(f'| {d} | {n} | {p} |\n' for p,d,n in sorted(rows))
p=V+'/DESIGN.md'; s=open(p).read()
b,e='<!-- table of planted bugs -->\n','<!-- end of table -->\n'
i=s.index(b)+len(b); j=s.index(e)
open(p,'w').write(s[:i]+out+s[j:])
