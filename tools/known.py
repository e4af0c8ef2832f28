#!/usr/bin/env python3
"""Writes known_findings.txt: the open findings below and the repaired ones (by the subject of their commit in /repo)."""
import json,subprocess,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
log=dict(l.split(' ',1)[::-1] for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.strip().split('\n'))
OPEN=json.load(open('tools/findings_open.json'))
FIXED=json.load(open('tools/findings_fixed.json'))
out=[]
for o in OPEN:
    out.append({"id":o["id"],"property":o["property"],"status":"open","harness":o["harness"],"inputs":o.get("inputs",[]),"what":o["what"]})
for f in FIXED:
    h=log[f["subject"]]
    for p in f["properties"]:
        out.append(f"fixed: property={p} {h} {f['what']}")
left=[s for s in log if s.startswith('fix:') and s not in [f["subject"] for f in FIXED]]
for s in left: print("not recorded:",log[s],s)
open('known_findings.txt','w').write(''.join((o if isinstance(o,str) else json.dumps(o,ensure_ascii=False))+'\n' for o in out))
