#!/bin/bash
# dev helper: run.sh TASKS [target]
T=${2:-x86_64-unknown-linux-gnu}
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
E=/verif/.build/engine/release/morton-absint
SR=${SR:-/tmp/sr-$T}
export CARGO_TARGET_DIR=/verif/.build/ad
export MA_CAPTURE=/verif/.build/args-$T
if [ -z "$NOB" ]; then
touch /verif/adapters/src/lib.rs
(cd /verif/adapters; RUSTFLAGS="--sysroot $SR -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Aunused" RUSTC_WORKSPACE_WRAPPER=$E cargo +nightly check --features ${FEAT:-all} --offline --target $T 2>&1 | grep -E "^error" -A8 | head -60; exit ${PIPESTATUS[0]}) || exit 1
fi
unset MA_CAPTURE
mapfile -d '' -t A < /verif/.build/args-$T
cd /verif/adapters
rm -rf /tmp/claim; mkdir -p /tmp/claim
for i in $(seq 1 ${NP:-1}); do
MA_TASKS=$1 MA_OUT=/tmp/o$i.json MA_CLAIM=/tmp/claim RUST_MIN_STACK=4294967296 CARGO_PKG_NAME=x $E "${A[@]}" &
done; wait
cat $(seq -f /tmp/o%g.json 1 ${NP:-1}) > /tmp/out.json
