#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for i in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{i}/meta.json'))
    rows.append((m['property'],i,m['needs'],m.get('caught_by',m['property'])))
rows.sort()
t='<!-- seeds -->\n| property | planted bug | needs | caught by (quick) |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%r for r in rows)+'<!-- /seeds -->'
s=open(R+'/DESIGN.md').read()
s=re.sub(r'SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->',lambda _:t,s,flags=re.S)
open(R+'/DESIGN.md','w').write(s)
