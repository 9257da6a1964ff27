#!/bin/bash
# check.sh ID          run the check of a property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE run a replay file again
# check.sh setup       build every variant of the simulator
cd "$(dirname "$0")" || exit 2
build() { sim/build.sh "$1"; }
case "$1" in
setup)
    for v in inst plain release; do build $v || exit 2; done ;;
replay)
    v=$(sed -n 's/^variant //p' "$2")
    bin=$(build "${v:-inst}") || exit 2
    exec "$bin" replay "$2" ;;
C06)
    # Unoptimised and optimised builds, on stacks of their own sizes.
    shift
    bin=$(build plain) || exit 2
    carry=sim/target/carry.$$
    "$bin" check C06 --keep "$carry" "$@"; a=$?
    if [ $a != 0 ]; then rm -f "$carry"; exit $a; fi
    bin=$(build release) || exit 2
    "$bin" check C06 --carry "$carry" "$@"; a=$?
    rm -f "$carry"
    exit $a ;;
C*)
    id=$1; shift
    bin=$(build inst) || exit 2
    exec "$bin" check "$id" "$@" ;;
*) echo "check.sh ID | replay FILE | setup" >&2; exit 2 ;;
esac
