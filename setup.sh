#!/bin/bash
# Builds the analyser and the MIR-bearing standard libraries into .build/ (offline).
set -e
cd "$(dirname "$0")"
B=$PWD/.build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
(cd engine && CARGO_TARGET_DIR="$B/engine" cargo +nightly build --release --offline -q)
pids=()
for t in x86_64-unknown-linux-gnu s390x-unknown-linux-gnu i686-unknown-linux-gnu; do
  if [ ! -e "$B/sr-$t/.ok" ]; then
    ( MIRI_SYSROOT="$B/sr-$t" cargo +nightly miri setup --target $t >"$B/sr-$t.log" 2>&1 && touch "$B/sr-$t/.ok" ) &
    pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
