#!/bin/bash
# Usage: tools/check.sh <property-id> [quick|thorough]
# Rebuilds the harness from /repo's current working tree, then runs the check.
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_ROOT" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
if [ "$id" = P01 ]; then
  bash tools/pybuild.sh >&2 || { echo "ERROR build failed" >&2; exit 2; }
  exec bash tools/p01.sh --tier "$tier" --seed "$seed"
fi
bash tools/build.sh >&2 || { echo "ERROR build failed" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/vh" check "$id" --tier "$tier" --seed "$seed"
