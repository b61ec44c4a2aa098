#!/bin/bash
# Build everything once, so that the checks only compile /repo's crate again.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
bash "$here/build.sh" || exit 2
unset CARGO_TARGET_DIR
cargo build --offline -q --bin whitespace --manifest-path /repo/Cargo.toml --target-dir "$here/target/cli" || exit 2
cargo build --offline -q --lib --target wasm32-unknown-unknown --manifest-path /repo/Cargo.toml --target-dir "$here/target/wasm" || exit 2
(unset RUSTUP_TOOLCHAIN; MIRIFLAGS= cargo +nightly miri run --offline --quiet --manifest-path "$here/race/Cargo.toml" --target-dir "$here/target/miri" -- 2 0 1) || exit 2
