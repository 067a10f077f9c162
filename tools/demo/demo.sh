#!/bin/bash
# Run with cwd = the repository. Builds main.rs beside this file against it, in a scratch directory,
# and runs it: exit 0 when the property's example behaves as it should, nonzero when it does not.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS SWAP_PROGRAM_OWNER_FEE_ADDRESS
mkdir -p "$tmp/crate/src"
cp "$here/main.rs" "$here/mini.rs" "$tmp/crate/src/" || exit 3
cp "$here/Cargo.lock" "$tmp/crate/" || exit 3
cat >"$tmp/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
token-bonding-curve = { path = "$repo/programs/token-bonding-curve" }
solana-program = "=1.10.6"
spl-token = { version = "=3.3.0", features = ["no-entrypoint"] }

[profile.dev]
debug = 0
overflow-checks = false
debug-assertions = false
EOF
cd "$tmp/crate" || exit 3
cargo build --offline --quiet >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; echo "demo does not build"; exit 4; }
timeout 60 "$tmp/target/debug/demo"
