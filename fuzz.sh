#!/bin/bash
# fuzz.sh ID [SECONDS]: coverage-guided search for a violation, eight processes. Adds what it did to
# the evidence of the random search that went before.
cd "$(dirname "$0")" || exit 3
id="$1"
seconds="${2:-600}"
seed="${VERIF_SEED:-1}"
case "$id" in
C17 | C18 | C25)
    # these start processes of the harness's own program
    exit 0
    ;;
esac
export CARGO_TARGET_DIR="$PWD/target-fuzz" CARGO_NET_OFFLINE=true
mkdir -p out
fuzz/prepare.sh || exit 3
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/bardecoder-*
if ! (cd fuzz && RUSTC_WRAPPER="$PWD/wrap.sh" cargo build --release --offline --locked) > out/fuzz-build.log 2>&1; then
    cat out/fuzz-build.log >&2
    echo "BUILD FAILED" >&2
    exit 3
fi
dir="$PWD/out/fuzz-$id"
rm -rf "$dir"
for k in 1 2 3 4 5 6 7 8; do
    mkdir -p "$dir/$k/corpus"
    python3 -c '
import random, sys
r = random.Random(int(sys.argv[1]))
for i in range(24):
    n = r.choice([200, 800, 3000])
    open(f"{sys.argv[2]}/{i}", "wb").write(bytes(r.randrange(256) for _ in range(n)))
' "$((seed * 8 + k))" "$dir/$k/corpus"
    (
        ulimit -v 20000000
        cd "$dir/$k" || exit 3
        VQ_PROP="$id" VQ_VERIF="$dir/$k" VQ_STATS="$dir/$k/stats" "$CARGO_TARGET_DIR/release/vfuzz" \
            -seed="$((seed * 8 + k))" -max_total_time="$seconds" -max_len=8192 -len_control=0 -timeout=300 \
            -rss_limit_mb=8000 -artifact_prefix="$dir/$k/" -use_value_profile=1 corpus > log 2>&1
        echo $? > rc
    ) &
done
wait
code=0
for k in 1 2 3 4 5 6 7 8; do
    rc=$(cat "$dir/$k/rc")
    [ "$rc" != 0 ] || continue
    if [ "$rc" = 1 ] && grep -q "^VIOLATION" "$dir/$k/log"; then
        mkdir -p out/replays
        cp "$dir/$k/out/replays/$id.json" "out/replays/$id.json"
        grep "^$id: " "$dir/$k/log" | head -1
        echo "VIOLATION property=$id replay=$PWD/out/replays/$id.json"
        code=1
        break
    fi
    a=$(ls "$dir/$k"/crash-* "$dir/$k"/timeout-* "$dir/$k"/oom-* 2> /dev/null | head -1)
    if [ -n "$a" ]; then
        # the process ended or did not go on: see whether the case does that by itself
        VQ_PROP="$id" VQ_VERIF="$dir/$k" VQ_STATS="$dir/$k/stats" VQ_DUMP="$dir/$k/case.json" \
            "$CARGO_TARGET_DIR/release/vfuzz" "$a" > /dev/null 2>&1
        timeout 600 target/release/vq replay "$dir/$k/case.json" > "$dir/$k/replay.log" 2>&1
        r=$?
        if [ "$r" -gt 123 ] || [ "$r" = 1 ]; then
            mkdir -p out/replays
            cp "$dir/$k/case.json" "out/replays/$id.json"
            echo "$id: a case ends the process or does not return (status $r)"
            echo "VIOLATION property=$id replay=$PWD/out/replays/$id.json"
            code=1
            break
        fi
    fi
    tail -5 "$dir/$k/log" >&2
    echo "INCONCLUSIVE: coverage-guided search $k of $id ended with status $rc" >&2
    [ "$code" = 1 ] || code=4
done
python3 - "$id" "$dir" "$seconds" "$code" <<'PY'
import json, re, sys
id, dir, seconds, code = sys.argv[1:]
runs = cases = nontrivial = edges = 0
for k in range(1, 9):
    try:
        a = [int(v) for v in open(f"{dir}/{k}/stats").read().split()]
        runs, cases, nontrivial = runs + a[0], cases + a[1], nontrivial + a[2]
    except Exception:
        pass
    c = re.findall(r"cov: (\d+)", open(f"{dir}/{k}/log", errors="replace").read())
    edges = max([edges] + [int(v) for v in c])
p = f"evidence/{id}.json"
e = json.load(open(p))
e["coverage"]["coverage_guided"] = {
    "processes": 8, "seconds": int(seconds), "runs": runs, "cases": cases,
    "distinct_nontrivial_per_process_summed": nontrivial, "branches_of_the_library_reached": edges,
}
if code == "1":
    e["violations"] = 1
json.dump(e, open(p, "w"), indent=2)
open(p, "a").write("\n")
print(f"{id} coverage-guided: {cases} cases, {nontrivial} non-trivial, {edges} branches of the library reached, {seconds} s")
PY
rm -rf "$dir"
exit $code
