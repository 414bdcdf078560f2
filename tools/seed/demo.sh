#!/bin/bash
# exit 0 if the property holds for the library in the current directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$D"/*.rs "$W/src/" || exit 1
F=$(cat "$D/features" 2>/dev/null || echo '"temp-storage"')
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
stream-download = { path = "$R/crates/stream-download", default-features = false, features = [$F] }
tokio = { version = "1", features = ["full"] }
bytes = "1"
futures-util = "0.3"
$(cat "$D/deps" 2>/dev/null | sed "s#@REPO@#$R#")
T
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/"
cd "$W" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUST_BACKTRACE=0 RUSTC_WRAPPER=
unset RUSTUP_TOOLCHAIN
export RUSTUP_TOOLCHAIN=$(sed -n 's/^channel *= *"\(.*\)"/\1/p' "$R/rust-toolchain.toml")
cargo build --offline -q || exit 1
timeout -k 5 100 ./target/debug/demo
