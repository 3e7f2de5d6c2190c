#!/bin/bash
# nsbug.sh <patch file> <property>...: run checks against a patched copy of /repo, seen as /repo in a private mount namespace
patch=$(readlink -f "$1"); shift
slot=${SLOT:-1}
mkdir -p /tmp/slot$slot/evidence
[ -d /tmp/slot$slot/build ] || cp -a /verif/build /tmp/slot$slot/build
rsync -a --delete --exclude=/target /repo/ /tmp/slot$slot/repo/
git -C /tmp/slot$slot/repo checkout -q -- . ; git -C /tmp/slot$slot/repo apply "$patch" || exit 2
export VV
unshare -m bash -c "
mount --bind /tmp/slot$slot/repo /repo && mount --bind /tmp/slot$slot/build /verif/build && mount --bind /tmp/slot$slot/evidence /verif/evidence || exit 2
cd /verif
for p in $*; do timeout 900 python3 check.py \$p > /tmp/slot$slot/out 2>&1; rc=\$?; echo \"$(basename $(dirname $patch)) $(basename $patch) \$p rc=\$rc \$(grep -E '^P[0-9]+:' /tmp/slot$slot/out | cut -c1-140)\"; [ -n \"\$VV\" ] && cat /tmp/slot$slot/out | cut -c1-300; done"
