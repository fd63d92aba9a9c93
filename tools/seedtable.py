#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for s in sorted(os.listdir(here+"/seeded")):
    m=json.load(open(here+"/seeded/%s/meta.json"%s))
    rows.append((m["property"],s,m["needs"]))
rows.sort()
p=here+"/DESIGN.md"; t=open(p).read()
lines=t.split("\n")
i=next(k for k,l in enumerate(lines) if l.startswith("| C01 | ju-mod"))
j=i
while lines[j].startswith("| "): j+=1
lines[i:j]=["| %s | %s | %s |"%r for r in rows]
open(p,"w").write("\n".join(lines))
