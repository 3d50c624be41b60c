#!/bin/bash
# dev helper: rt.sh driver[,src..] [regex]
python3 /verif/engine/runner.py "$@" > /tmp/t.$$ 2>&1
grep -A${VFA:-14} -E "^  VIOL|err=[^N]|ERROR|rror:" -m 12 /tmp/t.$$ | cut -c1-${VFW:-220} | head -${VFN:-40}
grep "^==" /tmp/t.$$ | sed -E 's/^== ([^:]*): ([0-9.]+)s .*/\2 \1/' | sort -rn | awk '$1>1.0' | head -15
echo "entries: $(grep -c '^==' /tmp/t.$$) viol: $(grep -c VIOL /tmp/t.$$)"; rm -f /tmp/t.$$
