#!/bin/bash
# Builds the transcript server in three configurations from /repo's current tree
cd "$(dirname "$0")/srv" || exit 2
rc=0
build() { # name, cargo options
  d="$VERIF_DIR/harness/target-c16/$1"; shift
  rm -rf "$d"/release/.fingerprint/dist-saver-*
  mkdir -p "$d"
  CARGO_TARGET_DIR="$d" cargo build --release --offline --locked "$@" >"$d/build.log" 2>&1 || { tail -n 30 "$d/build.log"; return 1; }
}
build none & p1=$!
build std --features std & p2=$!
build parallel --features parallel & p3=$!
for p in $p1 $p2 $p3; do wait $p || rc=1; done
exit $rc
