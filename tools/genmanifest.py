#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH={}
def ch(id,technique,note): CH[id]=(technique,note)
exec(open(os.path.join(ROOT,'tools/checks.py')).read())
props=[json.loads(l) for l in open(os.path.join(ROOT,'properties.jsonl'))]
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],
 notes="Every check builds the real package from /repo's working tree and explores it exhaustively within stated bounds; see DESIGN.md. No hooks are compiled into /repo.")
NA=globals().get('NA',{})
for p in props:
    i=p['id']
    if i in CH:
        t,n=CH[i]
        m['checks'].append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",technique=t,level="model_checking",level_note=n))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1); open(os.path.join(ROOT,'MANIFEST.json'),'a').write("\n")
print(len(m['checks']),'checks')
