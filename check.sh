#!/bin/bash
# check.sh <ID>: decides the property for the current tree of /repo.
# check.sh replay <file>: runs the case of a replay file again.
# check.sh --build: builds everything the checks need.
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$PWD
REPO=/repo
export VERIF_DIR MOFMT_REPO=$REPO
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
T=$VERIF_DIR/target
id=${1:?usage: check.sh ID}
mkdir -p "$T"

build() { # name, command ...
  local log=$T/$1.log
  shift
  # Cargo compares modification times only: make it look at the contents
  "$@" > "$log" 2>&1 && return 0
  echo "error: build failed" >&2
  tail -n 40 "$log" >&2
  exit 3
}
exec 9> "$T/.lock"
flock 9
rm -rf "$T"/*/{release,debug}/.fingerprint/mofmt-* "$T"/*/release/.fingerprint/harness-* \
  "$T"/*/release/.fingerprint/treecheck-*

need_bin() {
  # Not optimised: uses more of the stack, and checks for overflows
  build bin cargo build --offline --bin mofmt --manifest-path "$REPO/Cargo.toml" --target-dir "$T/bin"
  export MOFMT_BIN=$T/bin/debug/mofmt
}
need_harness() {
  build harness cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir "$T/harness"
}
need_tree() {
  build tree cargo build --release --offline --manifest-path treecheck/Cargo.toml --target-dir "$T/tree"
}

what=$id
[ "$id" = replay ] && what=$(sed -n 's/^property: //p;T;q' "${2:?usage: check.sh replay FILE}")
run=$T/harness/release/harness
case $what in
  --build) need_bin; need_harness; need_tree; exit 0 ;;
  C16) need_tree; run=$T/tree/release/treecheck ;;
  C14|C18|C19|C20|C21|C24|C25) need_bin; need_harness ;;
  *) need_harness ;;
esac
flock -u 9
exec "$run" "$@"
