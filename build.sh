#!/bin/bash
cd /verif/engine && CARGO_TARGET_DIR=/verif/.build/engine cargo +nightly build --release --offline 2>&1 | grep -E "^error" -A9
