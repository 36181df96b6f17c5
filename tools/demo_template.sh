#!/bin/bash
# Builds main.rs (beside this file) against the crates in the current directory and runs it:
# exit 0 when the behaviour is right.
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=nightly-2023-04-01
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=1 CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUST_BACKTRACE=0
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/scratch"
sed "s#@REPO@#$R#g" "$D/main.rs" > "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
goko = { path = "$R/goko" }
pointcloud = { path = "$R/pointcloud" }
hashbrown = "*"
fxhash = "*"
ndarray = "0.14"
libc = "*"
@DEPS@
T
cp "$R/Cargo.lock" "$W/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$W/Cargo.lock"
cd "$W" || exit 1
CARGO_TARGET_DIR=$R/target cargo build --offline >"$W/build.log" 2>&1 || { tail -40 "$W/build.log"; exit 3; }
cp "$R/target/debug/demo" "$W/demo.bin"
SCRATCH=$W/scratch timeout 200 "$W/demo.bin"
