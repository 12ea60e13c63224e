#!/bin/bash
# dev helper: tools/seeds.sh "<seeds>" <ID>... -- quietness over several seeds
cd "$(dirname "$0")/.." || exit 2
bash tools/build.sh || exit 2
seeds=$1; shift
for id in "$@"; do for sd in $seeds; do
  VERIF_SEED=$sd bash tools/check.sh "$id" "${TIER:-quick}" >/tmp/seeds.$$ 2>&1; rc=$?
  echo "$id seed=$sd rc=$rc $(grep -c . /tmp/seeds.$$) lines"
  if [ $rc -ne 0 ]; then grep -v " cases, " /tmp/seeds.$$ | cut -c1-${W:-400} | head -${N:-12}; fi
done; done
rm -f /tmp/seeds.$$
