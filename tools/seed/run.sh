#!/bin/bash
# run.sh ID...  : tests, demo (clean copy assumed fine), demo on patched copy, the property's check on patched /repo
# usage: run.sh validate ID.. | check ID..
mode=$1; shift
case $mode in
validate)
 w=$1; shift   # a scratch copy of /repo with its build products
 export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
 for id in "$@"; do
  cd $w || exit
  git checkout -q -- . ; git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  cargo test --offline --workspace --no-fail-fast -- --test-threads 2 > /tmp/sv/$id.test 2>&1; t=$?
  bash /verif/seeded/$id/demo.sh > /tmp/sv/$id.demo 2>&1; d=$?
  git checkout -q -- .
  bash /verif/seeded/$id/demo.sh > /tmp/sv/$id.clean 2>&1; c=$?
  echo "$id tests=$t demo_patched=$d demo_clean=$c"
 done;;
check)
 for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/run.sh $p > /tmp/sv/$id.check 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sv/$id.check)"
 done;;
checkin)
 # in a private copy of both repositories below a scratch directory, paths rewritten (made on first use)
 b=$1; shift
 if [ ! -d $b ]; then
  mkdir -p $b; git clone -q /repo $b/repo; cp /repo/Cargo.lock $b/repo/ 2>/dev/null; git clone -q /verif $b/verif
 fi
 git -C $b/verif checkout -q -- . ; git -C $b/verif pull -q
 grep -rl '"/repo"' $b/verif/harness --include=Cargo.toml | xargs sed -i "s#\"/repo\"#\"$b/repo\"#"
 for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $b/repo checkout -q -- . ; git -C $b/repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash $b/verif/run.sh $p > /tmp/sv/$id.check 2>&1; r=$?
  echo "$id $p rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sv/$id.check)"
 done;;
esac
