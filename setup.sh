#!/bin/bash
# Builds the monitors once (each check also builds what it needs).
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
for c in harness harness_std; do ( cd "$here/$c" && cargo build --offline --target-dir "$here/target" ) || exit 1; done
