#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory (/repo) and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
trust-graph = { path = "$repo/trust-graph" }
fluence-keypair = { path = "$repo/keypair" }
libp2p-identity = { version = "0.2", default-features = false, features = ["peerid", "rsa", "ed25519", "secp256k1"] }
bs58 = "0.4.0"
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q && exec_rc=0 && ./target/debug/demo
