#!/bin/bash
# Build the simulator against /repo's current working tree. Output goes to /verif/target only.
set -u
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=/verif/target
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL RUSTFLAGS
mkdir -p /verif/target
cd /verif/sim || exit 3
if ! cargo build --offline --locked --quiet >/verif/target/build.log 2>&1; then
  grep -E '^error' -A12 /verif/target/build.log | head -80 >&2
  echo "build of the simulator failed (log in /verif/target/build.log)" >&2
  exit 3
fi
