#!/bin/bash
# runseeds.sh [id ...]: apply each planted change to /repo in turn, run the check of its property (or those in CHECKS), undo.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
ids="$*"; [ -n "$ids" ] || ids="$(ls "$here/seeded")"
for i in $ids; do
  d="$here/seeded/$i"
  git -C /repo apply "$d/patch.diff" || { echo "$i does not apply"; continue; }
  p="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")"
  for c in ${CHECKS:-$p}; do
    out="$(timeout 900 "$here/run.sh" "$c" "${TIER:-quick}" 2>&1)"; rc=$?
    echo "$i $c rc=$rc $(echo "$out" | grep -A1 -m1 '^VIOLATION' | tail -1 | cut -c1-${W:-150}) [$(echo "$out" | tail -1 | grep -o 'wall=.*')]"
  done
  git -C /repo checkout -q -- .
done
