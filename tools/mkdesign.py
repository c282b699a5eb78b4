#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
strong={l.split(' ',1)[0]:l.split(' ',1)[1].strip() for l in open(root+'/tools/strengthened.txt') if l.strip()}
rows=["Each is caught by the quick check of its own property unless the last column says otherwise; where the column names a change, the check missed the bug at first and was strengthened that way.","","| bug | needs | breaks | remark |","|---|---|---|---|"]
n=0
for d in sorted(os.listdir(root+'/seeded')):
    f=f'{root}/seeded/{d}/meta.json'
    if os.path.exists(f):
        m=json.load(open(f)); n+=1
        rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {strong.get(d,'')} |")
rows.insert(0,f"{n} changes, each compiling and passing the repository's tests, each with a demonstration (`seeded/<id>/`).")
p=root+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda _:'<!-- seeded -->\n'+'\n'.join(rows)+'\n<!-- /seeded -->',s,flags=re.S)
open(p,'w').write(s)
