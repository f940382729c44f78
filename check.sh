#!/bin/bash
# check.sh <property> <quick|thorough>: build the simulator against /repo's working tree and search.
set -u
cd "$(dirname "$0")/sim" || exit 2
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true VSIM_ROOT="${VSIM_ROOT:-$(cd .. && pwd)}"
if ! log=$(cargo build --offline --quiet -p vsim 2>&1); then
  printf '%s\n' "$log" | tail -60
  echo "the simulator does not build against /repo's working tree"
  exit 2
fi
exec ./target/debug/vsim check "$1" --tier "$2"
