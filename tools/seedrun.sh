#!/bin/bash
# seedrun.sh SEED [PROPERTY...]: apply a planted bug to /repo, run the quick checks, undo
s=/verif/seeded/$1; shift
p=${@:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $s/patch.diff || exit 2
for i in $p; do (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 tools/check.py $i quick > /tmp/seedrun.$i.log 2>&1; rc=$?; echo "$(basename $s) $i exit $rc $(grep -m1 VIOLATION /tmp/seedrun.$i.log)"); done
git -C /repo checkout -- .
