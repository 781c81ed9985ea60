#!/bin/bash
# build.sh lib|async|cli: build the harness (and the program) from /repo's working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$here/harness"
build() {
  local log
  log=$(mktemp)
  if ! "$@" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "build failed: $*" >&2
    exit 2
  fi
  rm -f "$log"
}
case $1 in
  async) build cargo build --offline --locked --features async,wasm --target-dir target/async ;;
  cli)
    # the program itself, as its own workspace builds it (less optimised)
    RUSTFLAGS=-Zthreads=8 CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=0 \
      build cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin toon --target-dir "$here/harness/target/toon"
    build cargo build --offline --locked --features wasm --target-dir target/lib ;;
  *) build cargo build --offline --locked --features wasm --target-dir target/lib ;;
esac
