#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitors against /repo's current working tree and runs the check of one property.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN="${VMON_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset RUSTC_WRAPPER RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export VERIF_ROOT="${VERIF_ROOT:-$here}"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$here/target/build-$id.log"
mkdir -p "$here/target"
build() { # crate dir, bin
  ( cd "$here/$1" && cargo build --offline --target-dir "$here/target" >"$log" 2>&1 ) || { cat "$log" >&2; echo "the monitors do not build against /repo" >&2; exit 2; }
}
case "$id" in
  C28|C30|C32|C33|C34|C35) build harness_std; bin=vmon_std ;;
  *) build harness; bin=vmon ;;
esac
exec "$here/target/debug/$bin" check "$id" --tier "$tier"
