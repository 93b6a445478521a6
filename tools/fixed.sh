#!/bin/bash
# fixed.sh "fixed: property=..." : record a repaired defect
python3 - "$1" <<'P'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
if sys.argv[1] not in d['fixed']: d['fixed'].append(sys.argv[1])
json.dump(d,open(p,'w'),indent=1)
P
