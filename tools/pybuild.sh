#!/bin/bash
# Builds what P01 needs from /repo's tree: the Python package with its library, in build/py.
set -eu
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cd "$VERIF_ROOT"
mkdir -p build evidence
exec 9>build/.lock
flock 9
python3 tools/mkws.py
export CARGO_TARGET_DIR="$VERIF_ROOT/build/pytarget"
(cd pyh/bindgen && cargo build --offline --locked -q 2>../../build/pybuild.log) || { tail -80 build/pybuild.log; exit 1; }
pkg="$VERIF_ROOT/build/py/flowsdk"
mkdir -p "$pkg"
src=$(readlink -f build/ws/python/package/flowsdk)
cp "$src"/*.py "$pkg/"
so=$(ls -t "$CARGO_TARGET_DIR"/debug/deps/libflowsdk_ffi.so "$CARGO_TARGET_DIR"/debug/libflowsdk_ffi.so 2>/dev/null | head -1)
cmp -s "$so" "$pkg/libflowsdk_ffi.so" && [ -f "$pkg/flowsdk_ffi.py" ] || {
  (cd pyh/bindgen && "$CARGO_TARGET_DIR/debug/p01-bindgen" generate --library "$so" --language python --no-format --out-dir "$pkg" >/dev/null)
  cp "$so" "$pkg/libflowsdk_ffi.so"
}
gcc -O1 -shared -fPIC -o build/py/vclock.so pyh/vclock.c
