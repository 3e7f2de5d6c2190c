#!/bin/bash
# trybug.sh <id> [property...]: apply a planted bug to /repo, run the checks, undo
id=$1; shift
d=/verif/seeded/$id
ps="$@"; [ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 2
cd /verif
for p in $ps; do timeout 900 python3 check.py $p > /tmp/trybug.out 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/trybug.out) $(grep -E '^P[0-9]+:' /tmp/trybug.out | cut -c1-140)"; [ -n "$VV" ] && cat /tmp/trybug.out; done
git -C /repo checkout -- .
