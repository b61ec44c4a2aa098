#!/bin/bash
# Build the harness against the working tree of /repo. Exit 2 on failure.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export RUSTC_WRAPPER="$here/tools/rustc-wrap.sh" CARGO_TARGET_DIR="$here/target/h"
# The crate under test is always compiled again, whatever its files' times say.
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/whitespace-*
log="$here/target/build.log"; mkdir -p "$here/target"
if ! cargo build --offline >"$log" 2>&1; then
  echo "BUILD FAILED"; grep -E '^error' -A12 "$log" | head -60; exit 2
fi
