#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (between the SEEDED markers)."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | property, caught by | needs |","|---|---|---|"]
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} |")
p=V+"/DESIGN.md"; s=open(p).read()
t="<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->"
if "SEEDED_TABLE" in s: s=s.replace("SEEDED_TABLE",t)
else: s=re.sub(r"<!-- seeded -->.*?<!-- /seeded -->",lambda _:t,s,flags=re.S)
open(p,"w").write(s)
