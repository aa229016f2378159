#!/bin/bash
# Derives the workspace from /repo's current tree and builds the simulator.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_INCREMENTAL
export CARGO_TARGET_DIR="${SIM_TARGET:-/verif/.build/target}"
cd "$(dirname "$0")/.." || exit 2
python3 tools/derive.py || exit 2
cd sim && cargo build --release --offline --locked 2>&1 | { [ -n "$SIM_LOUD" ] && cat || grep -E "^(error|warning: unused)|error\[|-->|could not compile" -A6 | head -60; }
exit "${PIPESTATUS[0]}"
