# Sourced in /verif: build the harness (and the library under test) from the working trees.
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export VQ_DBG="$PWD/target-dbg/release/vq"
mkdir -p out evidence
build() { # build TARGET-DIR [cargo options]
    local dir="$1"
    shift
    mkdir -p "$dir"
    # never trust time stamps about the library under test
    rm -rf "$dir"/release/.fingerprint/bardecoder-*
    if ! (cd harness && cargo build --release --offline --locked --target-dir "$dir" "$@") > out/build.log 2>&1; then
        cat out/build.log >&2
        echo "BUILD FAILED" >&2
        exit 3
    fi
}
build "$PWD/target"
# the same with the library's debug images
[ -z "$DEBUG_IMAGES" ] || build "$PWD/target-dbg" --features debug-images
