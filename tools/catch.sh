#!/bin/bash
# dev helper: tools/catch.sh <seeded-id>... -- applies each planted bug, runs its check, undoes it
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(bash tools/check.sh "$p" "${TIER:-quick}" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: $p rc=$rc $(grep -c '^VIOLATION' <<<"$out") violations; $(grep '^  \[' <<<"$out" | head -1 | cut -c1-200)"
done
