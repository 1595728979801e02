#!/bin/bash
# run.sh <ID> [args...]   build the check of property <ID> from /repo's current tree and run it
# exit 0 held, 1 violated (VIOLATION line printed by the binary), other: error of the check
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
. ./env.sh
log="$VERIF_DIR/harness/target/build-$bin.log"
build_bin "$bin" "$log" || { echo "build of $bin failed"; tail -n 40 "$log"; exit 2; }
if [ "$id" = C16 ]; then
  bash ./harness/build_c16.sh || { echo "build of C16 variants failed"; exit 2; }
fi
"$CARGO_TARGET_DIR/release/$bin" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then echo "check $id ended with code $rc (no verdict)"; [ $rc -gt 128 ] && rc=4; fi
exit $rc
