#!/bin/bash
# Nothing is kept between runs: every check compiles what it needs from /repo. This only verifies the toolchain.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/.."
python3 -c 'import sys; sys.path.insert(0,"tools"); sys.dont_write_bytecode=True; import props'
go version
