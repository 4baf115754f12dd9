#!/bin/bash
# Writes .build/go.mod and .build/go.sum: /repo's requirements plus rapid and a replace for moco itself.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B"
{
  echo "module verif"
  grep -v '^module' "$REPO/go.mod" | grep -v '^tool '
  echo "require github.com/cybozu-go/moco v0.0.0"
  echo "require pgregory.net/rapid v1.3.0"
  echo "replace github.com/cybozu-go/moco => $REPO"
} > "$B/go.mod.tmp"
cp "$REPO/go.sum" "$B/go.sum.tmp"
if ! grep -q pgregory.net/rapid "$B/go.sum.tmp"; then
cat >> "$B/go.sum.tmp" <<'SUM'
pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=
pgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=
SUM
fi
mv "$B/go.mod.tmp" "$B/go.mod"; mv "$B/go.sum.tmp" "$B/go.sum"
