#!/bin/bash
# trybug.sh ID: apply the planted bug to /repo, run its property's check, undo
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 1
cd /verif; ./check ${2:-$p} quick > /tmp/trybug-$1.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -a VIOLATION /tmp/trybug-$1.log) | $(grep -a 'obligation failed' /tmp/trybug-$1.log | cut -c1-120 | head -3)"
