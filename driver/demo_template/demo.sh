#!/bin/bash
# builds main.rs (beside this file) against the crates of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable EGOBOX_LOG=off
W=$(mktemp -d); trap 'cd /; rm -rf "$W"' EXIT
export CARGO_TARGET_DIR="$W/target"
mkdir -p "$W/p/src"; cp "$D/main.rs" "$W/p/src/main.rs"; cp "$R/Cargo.lock" "$W/p/Cargo.lock"
dep() { grep "^$1 *=" "$R/Cargo.toml"; }
cat > "$W/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
egobox-doe = { path = "$R/crates/doe" }
@DEPS@
$(dep ndarray)
$(dep ndarray-rand)
$(dep rand_xoshiro)
$(dep linfa)
T
cd "$W/p" && cargo build --offline -q 2> "$W/log" || { tail -30 "$W/log"; exit 3; }
cd "$W" && exec_out=$(timeout 120 "$W/target/debug/demo" 2>&1); r=$?
echo "$exec_out" | tail -5
exit $r
