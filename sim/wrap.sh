#!/bin/bash
# rustc wrapper: instruments the crate under test, and nothing else.
#   SIM_INST=1   call the simulator at every basic block, load and store
#   SIM_HOOKS=1  build /repo with its observation points (--cfg rescan_sim)
#   SIM_HOOKS=2  and with those for its inner parts (--cfg rescan_sim_inner)
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = --crate-name ] && name="$a"; prev="$a"; done
extra=()
case "$name" in
rescan)
    extra+=(--cap-lints allow)
    [ "$SIM_HOOKS" != 0 ] && extra+=(--cfg rescan_sim)
    [ "$SIM_HOOKS" = 2 ] && extra+=(--cfg rescan_sim_inner)
    if [ "$SIM_INST" = 1 ]; then
        extra+=(-C passes=sancov-module -C codegen-units=1)
        for o in level=3 trace-pc-guard trace-loads trace-stores; do
            extra+=(-C "llvm-args=-sanitizer-coverage-$o")
        done
    fi ;;
core|alloc|std)
    # The standard library is instrumented too where it is built from source,
    # so that threads can switch inside its locks, and its work is counted.
    if [ "$SIM_INST" = 1 ]; then
        extra+=(-C passes=sancov-module)
        for o in level=3 trace-pc-guard; do
            extra+=(-C "llvm-args=-sanitizer-coverage-$o")
        done
    fi ;;
simulator)
    export RUSTC_BOOTSTRAP=1
    [ "$SIM_HOOKS" != 0 ] && extra+=(--cfg rescan_sim)
    [ "$SIM_HOOKS" = 2 ] && extra+=(--cfg rescan_sim_inner) ;;
esac
exec "$rustc" "$@" "${extra[@]}"
