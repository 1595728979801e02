#!/bin/bash
# Run with the repository under test as working directory, after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf -- "${t:?}"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$here/common.rs" "$t/src/"
cp "$here/Cargo.lock" "$t/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target"
cargo build --release --offline -q FEATURES 2>"$t/build.log" || { tail -30 "$t/build.log"; exit 2; }
timeout 120 "$t/target/release/demo"
rc=$?
echo "demo exit code $rc"
exit $rc
