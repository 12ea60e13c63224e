#!/bin/bash
# Usage: tools/p01.sh [--tier T --seed N | --replay FILE | --case N] (after tools/pybuild.sh)
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
export P01_PKG="${P01_PKG:-$VERIF_ROOT/build/py}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 P01_CLOCK="$VERIF_ROOT/build/py/vclock.so"
case "$*" in *--replay*|*--case*) export LD_PRELOAD="$P01_CLOCK" ;; esac
exec python3-vt "$VERIF_ROOT/pyh/main.py" "$@"
