#!/bin/bash
# Builds everything once (optional: each check builds what it needs)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
fresh "$CARGO_TARGET_DIR"
(cd harness && cargo build --release --offline --locked --bins) 2>&1 | tail -n 5
rc=${PIPESTATUS[0]}
[ -f harness/build_c16.sh ] && { bash harness/build_c16.sh || rc=1; }
exit $rc
