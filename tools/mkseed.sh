#!/bin/bash
# mkseed.sh ID PKG PROPERTY "needs" "breaks": take the change made in /tmp/seed/repo as a planted bug;
# the demonstration test is read from /tmp/seed/demo_test.go
set -e
id=$1 pkg=$2; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seed/repo diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /tmp/seed/demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# runs demo_test.go.txt inside package $pkg through an overlay
here=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=\$(mktemp -d) || exit 2
cp "\$here/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/overlay.json"
timeout 280 go test -vet=off -overlay "\$t/overlay.json" -run '^TestDemo\$' -count=1 ./$pkg
r=\$?
rm -r "\$t"
exit \$r
X
python3 - "$d" "$3" "$4" "$5" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /repo && bash $d/demo.sh > /tmp/seed/clean.log 2>&1) && echo "clean: ok" || { echo "clean: FAILS"; tail -20 /tmp/seed/clean.log; }
(cd /tmp/seed/repo && bash $d/demo.sh > /tmp/seed/bug.log 2>&1) && echo "bug: NOT SHOWN" || { echo "bug: shown"; grep -m3 -E 'zz_demo|demo_test|panic|FAIL' /tmp/seed/bug.log; }
git -C /tmp/seed/repo checkout -- .
