#!/bin/bash
# Builds the harness against /repo's current working tree. Exit 3 when that fails.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p "$here/target"
log=$(mktemp "$here/target/build.XXXXXX")
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -60 >&2
    tail -5 "$log" >&2
    rm -f "$log"
    echo "the harness could not be built against /repo" >&2
    exit 3
fi
rm -f "$log"
