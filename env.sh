export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
mkdir -p "$CARGO_TARGET_DIR"
# The code under test is always rebuilt: file times may be unreliable in copies of the tree
fresh() { rm -rf "$1"/release/.fingerprint/dist-saver-*; }
build_bin() {
  fresh "$CARGO_TARGET_DIR"
  (cd "$VERIF_DIR/harness" && cargo build --release --offline --locked --bin "$1") >"$2" 2>&1
}
