#!/bin/bash
# rep.sh PKG TEST FILE : replay with the dev binary
. /opt/vp/env.sh
cd /verif/harness && go test -modfile=${MODFILE:-/verif/.build/go.mod} -vet=off -c -o /tmp/dev.$1.test ./$1 || exit 1
cd $1 && VERIF_REPLAY=$3 GOMAXPROCS=1 VERIF_FULL=1 /tmp/dev.$1.test -test.run "^Test$2\$" -test.v
