#!/bin/bash
# RUSTC_WRAPPER of the harness build: only the crate under test gets the hooks and the edge instrumentation.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = uflow ]; then
    exec "$rustc" "$@" --cap-lints allow --cfg uflow_verif -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
