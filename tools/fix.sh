#!/bin/bash
# tools/fix.sh PROP "commit message" "what failed": commit the change in /repo as a fix and record it
git -C /repo diff --quiet && { echo "NO CHANGE"; exit 1; }
git -C /repo commit -qam "fix: $2" && /verif/tools/fixed.sh "$1" "$3"
