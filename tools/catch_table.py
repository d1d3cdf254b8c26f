#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Not used by any check."""
import json,os,re
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in os.listdir(v+"/seeded"):
    m=json.load(open(v+"/seeded/%s/meta.json"%d)); rows.append((m["property"],d,m["needs"]))
t="| bug | property and check that catches it | needs |\n|---|---|---|\n"+"".join("| `%s` | %s | %s |\n"%(d,p,n) for p,d,n in sorted(rows))
s=open(v+"/DESIGN.md").read()
s=re.sub(r"(<!-- table of planted bugs: tools/catch_table.py -->\n).*?(<!-- end -->)",lambda m:m.group(1)+t+m.group(2),s,flags=re.S)
open(v+"/DESIGN.md","w").write(s)
