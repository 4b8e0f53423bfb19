#!/bin/bash
cd "$(dirname "$0")" || exit 3
DEBUG_IMAGES=1
. ./build.sh
exec "$CARGO_TARGET_DIR/release/vq" selftest
