#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
export HOME=${HOME:-/root} PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUST_BACKTRACE
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$HERE/target
mkdir -p "$CARGO_TARGET_DIR"
# Contents decide, not modification times: rebuild http-types whenever its sources differ.
STAMP=$( (cd /repo && cat Cargo.toml && find src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$STAMP" ]; then
  for d in "$CARGO_TARGET_DIR"/release/.fingerprint/http-types-*; do
    [ -d "$d" ] && rm -r "$d"
  done
fi
cargo build --release --offline --locked --manifest-path "$HERE/sim/Cargo.toml" >"$CARGO_TARGET_DIR/build.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$STAMP" > "$CARGO_TARGET_DIR/repo.stamp"
