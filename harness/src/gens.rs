//! Shared generators.

use crate::refqr::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const ALL_LMV: usize = 40 * 4 * 8;

/// The idx-th (version, level, mask), visiting all 1280 before repeating, small and large
/// versions alternating.
pub fn vlm(idx: usize) -> (usize, Level, u8) {
    let k = (idx * 491) % ALL_LMV;
    (k % 40 + 1, LEVELS[(k / 40) % 4], (k / 160) as u8)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Num,
    Alnum,
    Ascii,
    Latin1,
    Utf8,
}

/// A segment whose content cycles through a pattern, shifted by `mul` in every cycle: long
/// contents stay small to describe and quick to shrink.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct SegSpec {
    pub kind: Kind,
    pub pattern: Vec<u8>,
    pub mul: u8,
    pub len: u16,
}

const CHARS: [char; 42] = [
    'é', 'a', '\u{feff}', '\r', 'ß', 'Ã', 'À', 'ÿ', 'ñ', '÷', '×', 'Z', '0', ' ', '~', '\u{80}', '\u{a0}', '¿', 'Ā', 'Ω', 'я',
    'ע', '\u{7ff}', '\u{800}', '世', '界', '€', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\n',
    '\0', 'ö', 'ü', 'Å', 'ç', 'º', 'Ö', '\u{7f}', 'Æ',
];

/// Contents that a decoder may be tempted to treat in a special way.
const TRICKY: &[&[u8]] = &[
    b"\xEF\xBB\xBFa",
    b"\xEF\xBB\xBF\xC2\xA9",
    b"\xFE\xFF\0a",
    b"\xFF\xFEa\0",
    b"\xC2\xA9",
    b"\xE2\x82\xAC",
    b"\xF0\x9F\x98\x80",
    b"\x82\xA0\x93\xFA",
    b"a\r\nb",
    b" a ",
    b"\ta\n",
    b"%20%C3%A9",
    b"&amp;\\n",
    b"\0\0",
    b"\x80\x85\x9F",
    b"\x1Da\x1D",
    b"\\000026",
    b"]Q2\\000003",
];

impl SegSpec {
    fn at(&self, i: usize) -> u8 {
        let p = self.pattern.len();
        if p == 0 {
            return 0;
        }
        self.pattern[i % p].wrapping_add(self.mul.wrapping_mul((i / p) as u8))
    }

    pub fn expand(&self) -> Seg {
        let it = (0..self.len as usize).map(|i| self.at(i));
        match self.kind {
            Kind::Num => Seg::Num(it.map(|b| b % 10).collect()),
            Kind::Alnum => Seg::Alnum(it.map(|b| b % 45).collect()),
            Kind::Ascii => Seg::Byte(it.map(|b| b & 0x7F).collect()),
            Kind::Latin1 => Seg::Byte(it.map(|b| if b == 0xC3 { 0xC4 } else { b }).collect()),
            Kind::Utf8 => {
                let mut s = String::new();
                for (i, b) in it.enumerate() {
                    s.push(if i == 0 {
                        CHARS[b as usize % 13 / 2]
                    } else {
                        CHARS[b as usize % 42]
                    });
                }
                // the mark of UTF-8 as this library knows it
                if !s.is_empty() && !s.as_bytes().contains(&0xC3) {
                    s.push('é');
                }
                Seg::Byte(s.into_bytes())
            }
        }
    }
}

/// The segments of the specification that fit, the last one cut to what fits.
pub fn build(specs: &[SegSpec], version: usize, level: Level) -> Vec<Seg> {
    let all: Vec<Seg> = specs.iter().map(|s| s.expand()).collect();
    let mut out = fit(&all, version, level);
    for s in &mut out {
        if let Seg::Byte(v) = s {
            // a cut through a multi-byte character
            while byte_text(v).is_none() {
                v.pop();
            }
        }
    }
    out
}

pub fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        Just(Kind::Num),
        Just(Kind::Alnum),
        Just(Kind::Ascii),
        Just(Kind::Latin1),
        Just(Kind::Utf8)
    ]
}

fn spec(len: BoxedStrategy<u16>) -> impl Strategy<Value = SegSpec> {
    (
        kind(),
        prop_oneof![
            4 => prop::collection::vec(any::<u8>(), 1..48),
            1 => prop::collection::vec(prop_oneof![Just(0u8), Just(44), Just(9), Just(255)], 1..4),
            // byte order marks, UTF-8 without 0xC3, line ends, escapes
            1 => prop::sample::select(TRICKY).prop_map(|t| t.to_vec()),
        ],
        any::<u8>(),
        len,
    )
        .prop_map(|(kind, pattern, mul, len)| SegSpec {
            kind,
            pattern,
            mul,
            len,
        })
}

/// Segment lists for a symbol that holds about `cap` bytes: tiny, partly filled, and filled to
/// the last bit by the last segment.
pub fn seg_specs(cap: usize) -> BoxedStrategy<Vec<SegSpec>> {
    let cap = cap as u16;
    let tiny = || prop::collection::vec(spec((0u16..=12).boxed()), 0..=4);
    let medium = move |n: u16| spec((0..=(cap / n).max(1)).boxed());
    let overlong = || spec((8000u16..=8003).boxed());
    // most of the symbol filled by one segment, more behind it
    let bulky = move || {
        (spec((0u16..=0).boxed()), prop_oneof![2 => 300u32..=1000, 1 => 960u32..=1000]).prop_map(move |(mut s, share)| {
            let tenths = match s.kind {
                Kind::Num => 24,
                Kind::Alnum => 14,
                Kind::Utf8 => 5,
                _ => 10,
            };
            s.len = (u32::from(cap) * tenths * share / 10_000) as u16;
            s
        })
    };
    prop_oneof![
        2 => tiny(),
        2 => (1u16..=4).prop_flat_map(move |n| prop::collection::vec(medium(n + 1), n as usize)),
        2 => overlong().prop_map(|s| vec![s]),
        2 => (bulky(), tiny(), prop::option::of(overlong())).prop_map(|(s, t, o)| {
            let mut v = vec![s];
            v.extend(t);
            v.extend(o);
            v
        }),
        3 => (1u16..=4)
            .prop_flat_map(move |n| (prop::collection::vec(medium(n + 1), n as usize), overlong()))
            .prop_map(|(mut v, s)| { v.push(s); v }),
    ]
    .boxed()
}

/// Short contents for pictures: one to three segments of modest length.
pub fn short_specs() -> BoxedStrategy<Vec<SegSpec>> {
    prop::collection::vec(spec((1u16..=40).boxed()), 1..=3).boxed()
}

/// Damaged codewords: per block, (index in block, non-zero xor).
pub type Damage = Vec<Vec<(u8, u8)>>;

pub fn apply_damage(sym: &mut Symbol, d: &Damage) {
    for (b, errs) in d.iter().enumerate() {
        for &(i, x) in errs {
            sym.xor_codeword(b, i as usize, x);
        }
    }
}

fn xor_byte() -> impl Strategy<Value = u8> {
    prop_oneof![
        3 => 1u8..=255,
        1 => (0u32..8).prop_map(|b| 1u8 << b),
        1 => Just(255u8),
    ]
}

/// `k` distinct damaged codewords in a block of `len`.
pub fn block_damage(len: usize, k: usize) -> BoxedStrategy<Vec<(u8, u8)>> {
    (
        prop::sample::subsequence((0..len as u16).collect::<Vec<_>>(), k),
        prop::collection::vec(xor_byte(), k),
        prop_oneof![3 => Just(false), 1 => Just(true)],
        any::<u8>(),
    )
        .prop_map(move |(pos, xs, same, _x)| {
            pos.into_iter()
                .enumerate()
                .map(|(j, p)| (p as u8, if same { xs[0] } else { xs[j] }))
                .collect()
        })
        .boxed()
}

/// Damage with a number of errors per block drawn from `counts`.
pub fn damage_with(
    version: usize,
    level: Level,
    counts: impl Fn(usize) -> Vec<usize> + 'static,
) -> BoxedStrategy<Damage> {
    let bl = blocks(version, level);
    let strategies: Vec<_> = bl
        .data
        .iter()
        .enumerate()
        .zip(counts(bl.data.len()))
        .map(|((_, &d), k)| block_damage(d + bl.ec, k.min(d + bl.ec)))
        .collect();
    strategies.boxed()
}

/// At most t errors in every block: all blocks full, one block full, or anything in between.
pub fn repairable_damage(version: usize, level: Level) -> BoxedStrategy<Damage> {
    let bl = blocks(version, level);
    let (n, t) = (bl.data.len(), bl.t);
    let counts = prop_oneof![
        2 => Just(vec![t; n]),
        2 => prop::collection::vec(0..=t, n),
        1 => (0..n, 1..=t).prop_map(move |(b, k)| { let mut v = vec![0; n]; v[b] = k; v }),
        1 => Just(vec![1; n]),
    ];
    counts
        .prop_flat_map(move |c| damage_with(version, level, move |_| c.clone()))
        .boxed()
}
