#!/bin/bash
# fixcommit.sh PROP "what failed" "commit message"
cd /repo || exit 1
out=$(bash /verif/tools/tests.sh); echo "$out"
echo "$out" | grep -q "^0 stable" || { echo NOT COMMITTED; exit 1; }
git -C /repo commit -qam "fix: $3" && h=$(git -C /repo rev-parse --short=12 HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known-findings.txt
tail -1 /verif/known-findings.txt
