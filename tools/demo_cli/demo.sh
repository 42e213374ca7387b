#!/bin/bash
# Builds the command-line program of the repository in the current directory and runs the demonstration against it: 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME="${HOME:-/root}" PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
timeout 240 cargo build --offline --bin nb >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; exit 99; }
cp target/debug/nb "$tmp/nb" || exit 99
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 60 python3 "$here/main.py" "$tmp/nb"
