#!/bin/bash
# development helper: dev.sh PKG TEST [checks] [seed]
. /opt/vp/env.sh
cd /verif/harness && go test -modfile=${MODFILE:-/verif/.build/go.mod} -c -o /tmp/dev.$(basename $1).test ./$1 || exit 1
mkdir -p /tmp/devout.$2; rm -f /tmp/devout.$2/*
export VERIF_OUT=/tmp/devout.$2 VERIF_BUDGET=${BUDGET:-120s}
cd /verif/harness/$1 && timeout ${TMO:-600} /tmp/dev.$(basename $1).test -test.run "^Test$2\$" -test.v -rapid.checks=${3:-20} -rapid.seed=${4:-1} -rapid.nofailfile 2>&1 | grep -v '\[rapid\] draw' | tail -${TAIL:-80}
python3 - <<PY
import json
d=json.load(open("/tmp/devout.$2/shard.json"))
for k in ("evaluations","nontrivial","classes","known","skipped","inconclusive","wall_s"): print(k, d.get(k))
if d.get("violation"): print("VIOL", d["violation"][:300]); json.dump(d["plan"],open("/tmp/devout.$2/plan.json","w")); print(json.dumps(d["plan"]))
PY
