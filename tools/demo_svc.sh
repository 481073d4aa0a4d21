#!/bin/bash
# Builds the service modules of the current directory (/repo) over shims (beside this script) with main.rs as driver, and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-12-06 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/"; cp "$here/build.rs.txt" "$t/build.rs"; cp "$repo/Cargo.lock" "$t/"; cp -r "$here/shims" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
build = "build.rs"
[workspace]
[dependencies]
trust-graph = { path = "$repo/trust-graph" }
fluence-keypair = { path = "$repo/keypair" }
libp2p-identity = { version = "0.2", default-features = false, features = ["peerid", "rsa", "ed25519", "secp256k1"] }
marine-rs-sdk = { path = "shims/marine-rs-sdk" }
marine-sqlite-connector = { path = "shims/marine-sqlite-connector" }
bs58 = "0.4.0"
log = "0.4.8"
anyhow = "1.0.31"
once_cell = "1.18.0"
serde_json = "1.0"
rmp-serde = "1.1.1"
bincode = "1.3.1"
thiserror = "1.0.23"
EOF
cd "$t" && VX_REPO="$repo" CARGO_TARGET_DIR="$t/target" cargo build --offline -q && ./target/debug/demo
