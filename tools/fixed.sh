#!/bin/bash
# tools/fixed.sh PROP "what failed": record the last /repo commit as a repair of PROP
python3 - "$1" "$(git -C /repo log -1 --format=%h)" "$2" <<'P'
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f)); d['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4])); json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
P
