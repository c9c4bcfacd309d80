#!/bin/bash
# RUSTC_WRAPPER: instruments the library under test with a callback at every basic block and every
# atomic operation (the simulator's preemption points) and lets the simulator crate use the
# allocation-error hook.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
 sneturfahi) exec "$rustc" "$@" -Cpasses="sancov-module tsan" -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
 snsim) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
esac
exec "$rustc" "$@"
