#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it: 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0
unset RUSTC_WRAPPER RUSTFLAGS
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
sed "s#/repo#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cp "$here/main.rs" "$here/kit.rs" "$tmp/src/"
cd "$tmp" && timeout 240 cargo build --offline >build.log 2>&1 || { cat build.log >&2; exit 99; }
timeout 60 "$tmp/target/debug/demo"
