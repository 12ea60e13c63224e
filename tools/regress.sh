#!/bin/bash
# dev helper: tools/regress.sh <commit> <ID>... -- reverts one fix in /repo's working tree, runs
# the checks, keeps one replay per signature as regress/<ID>/, and restores the tree
cd "$(dirname "$0")/.." || exit 2
c=$1; shift
git -C /repo revert -n "$c" >/dev/null 2>&1 || { echo "$c: conflict"; git -C /repo revert --abort 2>/dev/null; git -C /repo reset -q --hard; exit 1; }
git -C /repo reset -q
for id in "$@"; do
  out=$(bash tools/check.sh "$id" 2>&1); rc=$?
  n=0
  for r in $(grep -oP '^VIOLATION .*replay=\K.*' <<<"$out" | head -4); do
    mkdir -p "regress/$id"; cp "$r" "regress/$id/$c-$(basename "$r")"; n=$((n+1))
  done
  echo "$c $id rc=$rc kept $n"
done
git -C /repo checkout -q -- .
