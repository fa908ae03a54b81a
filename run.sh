#!/bin/bash
# run.sh check <id> | replay <file> | show <id> <target> [n] [seed] | build
# Builds the harness against /repo's working tree and runs it.
root=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$root/harness/rustc-wrap.sh"
export CARGO_TARGET_DIR="$root/target" VH_ROOT="$root"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir -p "$root/work"
log=$root/work/build.$$.log
if ! cargo build --offline --manifest-path "$root/harness/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$root/target/debug/vh" "$@"
