#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a check in harness/src/checks."""
import json, os, re, glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=sorted({re.search(r'id:\s*"(C\d\d)"',open(f).read()).group(1) for f in glob.glob(root+'/harness/src/checks/c*.rs')})
notes=json.load(open(root+'/tools/notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} --tier quick",thorough_cmd=f"./check.sh {i} --tier thorough",
            technique=n.get('technique',"property-based testing: generated inputs, schedules and faults against an independent reference model, minimised to a replayable choice string"),
            level="exploration",
            level_note=n.get('note',"generated search over the space described in DESIGN.md; no exhaustiveness claim")))
    else:
        na.append(dict(property=i,reason=notes.get(i,{}).get('na',"check not built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
