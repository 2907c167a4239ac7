#!/bin/bash
# trybug.sh PATCH PROP... : the quick checks against a scratch copy with the patch (development aid)
P=$(readlink -f "$1"); shift
W=$(mktemp -d /tmp/bugXXXX); cp -a /repo/. $W; cd $W && git apply "$P" || { echo "does not apply"; rm -rf "$W"; exit 3; }
for p in "$@"; do VERIF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} VERIF_QUICK_S=${Q:-30} python3 /verif/check.py $p quick 2>&1 | grep -a "VIOLATION\|KNOWN\|held\|build failed\|ok" | tail -3; echo "$p exit ${PIPESTATUS[0]}"; done
rm -rf "$W"
