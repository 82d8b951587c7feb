#!/bin/bash
# try.sh SEED... : applies each planted change to /repo, runs its property's check, undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do s=$(basename $s); p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
git -C /repo apply $V/seeded/$s/patch.diff || continue
o=$($V/bin/check $p 2>&1); rc=$?
git -C /repo checkout -- .
echo "$s $p rc=$rc $(echo "$o" | grep -m1 'rejected event' | cut -c1-${W:-260})"; [ $rc = 2 ] && echo "$o" | tail -5; done
