#!/bin/bash
# replay.sh FILE: evaluate a saved case against /repo's working tree.
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 3
DEBUG_IMAGES=1
. ./build.sh
exec "$CARGO_TARGET_DIR/release/vq" replay "$f"
