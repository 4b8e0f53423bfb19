#!/bin/bash
# A copy of proptest whose PassThrough generator goes on with pseudo-random bytes where the
# given ones end (zeros never end some of its loops), and does not halve what is left for each
# dependent strategy.
cd "$(dirname "$0")" || exit 3
to=../out/proptest
[ ! -e "$to/done" ] || exit 0
from=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/proptest-1.12.0 | head -1)
[ -d "$from" ] || { echo "no source of proptest 1.12.0" >&2; exit 3; }
rm -rf "$to"
cp -r "$from" "$to" || exit 3
python3 - "$to/src/test_runner/rng.rs" <<'PY' || exit 3
import sys
p = sys.argv[1]
s = open(p).read()
def once(old, new):
    global s
    assert s.count(old) == 1, old
    s = s.replace(old, new)
once("""                let bytes_to_copy = dest.len().min(*end - *off);
                dest[.. bytes_to_copy].copy_from_slice(&data[*off .. *off + bytes_to_copy]);
                *off += bytes_to_copy;
                for i in bytes_to_copy .. dest.len() {
                    dest[i] = 0;
                }
""", """                for d in dest.iter_mut() {
                    *d = if *off < *end {
                        data[*off]
                    } else {
                        mix(*off as u64) as u8
                    };
                    *off += 1;
                }
""")
once("""                let len = *end - *off;
                let child_start = *off + len / 2;
                let child_end = *off + len;
                *end = child_start;
                Seed::PassThrough(
                    Some((child_start, child_end)),
                    Arc::clone(data),
                )
""", """                let next = data.iter().skip(*off).take(8);
                let h = next.fold(*off as u64, |h, b| mix(h ^ u64::from(*b)));
                let start = *end + (h & 0xffff_ffff) as usize;
                let _ = &mut *off;
                let _ = &mut *end;
                Seed::PassThrough(Some((start, *end)), Arc::clone(data))
""")
s += """
fn mix(n: u64) -> u64 {
    let mut z = n.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
"""
open(p, "w").write(s)
PY
touch "$to/done"
