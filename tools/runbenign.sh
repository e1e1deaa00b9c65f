#!/bin/bash
# runbenign.sh [name ...]: apply each behaviour-keeping change of benign/ to /repo in turn and run every check (or those
# in CHECKS): all have to stay quiet.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
names="$*"; [ -n "$names" ] || names="$(ls "$here/benign" | sed 's/\.diff$//')"
all="$(grep -o '"property": "C[0-9]*"' "$here/MANIFEST.json" | grep -o 'C[0-9]*' | sort -u)"
for i in $names; do
  git -C /repo apply "$here/benign/$i.diff" || { echo "$i does not apply"; continue; }
  for c in ${CHECKS:-$all}; do
    out="$(timeout 900 "$here/run.sh" "$c" "${TIER:-quick}" 2>&1)"; rc=$?
    [ $rc = 0 ] || echo "ALARM $i $c rc=$rc $(echo "$out" | grep -A1 -m1 '^VIOLATION' | tail -1 | cut -c1-${W:-200})"
  done
  echo "$i done"
  git -C /repo checkout -q -- .
done
