#!/bin/bash
cd /verif/harness && RUSTFLAGS="--cfg bdsp_verif" CARGO_TARGET_DIR=/verif/target cargo build --release --offline ${BIN:+--bin bdsp_$BIN} --message-format short 2>&1 | grep -E "error" | sort -u | cut -c1-300 | head -${1:-25}
