#!/bin/bash
# build.sh VARIANT: builds the simulator against /repo's working tree and
# prints the path of the binary. VARIANT is inst, plain or release.
# If /repo does not build with its observation points, it is built with those
# that are in use in the library itself, or else without.
cd "$(dirname "$0")" || exit 2
export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=$PWD/wrap.sh RUSTFLAGS="" CARGO_INCREMENTAL=0
unset RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
export SIM_INST=0
case "$1" in
inst) profile=dev; dir=debug; SIM_INST=1 ;;
plain) profile=plain; dir=plain ;;
release) profile=release; dir=release ;;
*) echo "unknown variant $1" >&2; exit 2 ;;
esac
# attempt NAME SUBDIR ARGS...: one way to build it.
attempt() {
    local t=$PWD/target/$1 sub=$2
    shift 2
    mkdir -p "$t"
    if (flock 9; cargo build --offline --profile $profile --target-dir "$t" "$@") >"$t/build.log" 2>&1 9>"$t/lock"; then
        echo "$t/${sub}$dir/simulator"
        exit 0
    fi
    log=$t/build.log
}
triple=x86_64-unknown-linux-gnu
for hooks in 2 1 0; do
    export SIM_HOOKS=$hooks
    if [ $SIM_INST = 1 ] && [ -d "$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor" ]; then
        export RUSTC_BOOTSTRAP=1
        attempt $1-h$hooks-std $triple/ -Zbuild-std=std,panic_unwind --target $triple
        unset RUSTC_BOOTSTRAP
    fi
    attempt $1-h$hooks ""
done
cat "$log" >&2
exit 2
