#!/bin/bash
# Builds the harness (and flowsdk, through the overlay) from /repo's tree.
set -eu
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_ROOT"
mkdir -p build evidence
exec 9>build/.lock
flock 9
python3 tools/mkws.py
cd harness
cargo build --offline --locked -q 2>../build/build.log || { tail -80 ../build/build.log; exit 1; }
