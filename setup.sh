#!/bin/bash
# builds the native harnesses (offline) and warms the verifier
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg bdsp_verif"
(cd harness && CARGO_TARGET_DIR="$PWD/../target" cargo build --release --offline 2>&1 | tail -3)
(cd harness_core && CARGO_TARGET_DIR="$PWD/../target_core" cargo build --release --offline 2>&1 | tail -3)
verus --version | head -2
