#!/bin/bash
export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=/verif/harness/rustc-wrapper.sh
cd /verif/harness && cargo build --offline --profile ${1:-dbg} 2>&1 | grep -E "^error" -A9 | head -${2:-80}
exit ${PIPESTATUS[0]}
