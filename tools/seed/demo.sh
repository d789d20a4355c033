#!/bin/bash
# Run in /repo: builds /repo's library (without the parser that needs the missing peginator crate)
# in a scratch folder, together with demo.rs, which exits nonzero if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
python3 "$here/crate.py" "$(pwd)" "$W/crate" || exit 99
cp "$here/Cargo.lock" "$W/crate/Cargo.lock"
mkdir -p "$W/crate/examples" && cp "$here/demo.rs" "$W/crate/examples/demo.rs"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUST_BACKTRACE=0 RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target} CARGO_PROFILE_DEV_DEBUG=0
cd "$W/crate" && cargo build --quiet --offline --example demo >"$W/log" 2>&1 || { cat "$W/log"; exit 98; }
mkdir -p "$W/run" && cd "$W/run" && timeout 120 "$CARGO_TARGET_DIR/debug/examples/demo"
