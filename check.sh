#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree and search for a violation.
cd "$(dirname "$0")" || exit 3
[ "$1" != C18 ] || DEBUG_IMAGES=1
. ./build.sh
# a run that eats memory is to end, and to be traced to its case
ulimit -v 20000000
tier="${2:-${VERIF_TIER:-quick}}"
"$CARGO_TARGET_DIR/release/vq" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$PWD" || exit
# thorough: the same generators, driven by what the library does
[ "$tier" != thorough ] || exec ./fuzz.sh "$1" "${FUZZ_SECONDS:-600}"
