#!/bin/bash
# Builds a small program against /repo's crates in a scratch directory and runs it: exit 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.78.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
tmp="$(mktemp -d /tmp/vp-demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ink-analyzer = { path = "/repo/crates/analyzer" }
ink-analyzer-ir = { path = "/repo/crates/ir" }
ink-lsp-server = { path = "/repo/crates/lsp-server" }
lsp-server = "0.7.6"
lsp-types = { version = "0.95.0", features = ["proposed"] }
serde_json = "1"
[profile.dev]
debug = false
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run --offline -q
