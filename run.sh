#!/bin/bash
# run.sh <property> <quick|thorough>: rebuild the harness against /repo's working tree, explore, report.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true MC_VERIF="$here"
# cargo goes by mtime; go by content as well
sum="$(cat /repo/Cargo.toml $(find /repo/src -type f | sort) | sha256sum)"
stamp="$here/mc/target/src.sum"
if [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
  rm -rf "$here"/mc/target/release/.fingerprint/japanese_law_xml_schema-*
fi
log="$(mktemp)"
if ! (cd "$here/mc" && cargo build --release --offline) >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "harness does not build against the current tree"
  exit 2
fi
rm -f "$log"
echo "$sum" >"$stamp"
exec "$here/mc/target/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
