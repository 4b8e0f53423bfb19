//! C27: what a matrix decodes to is decided by its data and format modules alone.

use super::matrix::*;
use crate::gens::*;
use crate::refqr::*;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// The modules that carry neither codewords nor format information.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Area {
    Finders,
    Timing,
    Alignment,
    Version,
    DarkModule,
    Remainder,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fill {
    Inverted,
    Dark,
    Light,
    Random(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C27Case {
    pub sym: SymCase,
    /// damaged codewords, within the error correction capacity
    pub damage: Option<Damage>,
    pub spoilt: Vec<(Area, Fill)>,
}

pub struct C27;

/// What each module without a codeword or format bit belongs to.
fn area(version: usize, x: usize, y: usize) -> Option<Area> {
    let lay = layout(version);
    let n = lay.size;
    if !lay.func[y * n + x] {
        // the bits left over behind the last codeword
        let bits: usize = 8 * interleave_order(&blocks(version, Level::L)).len();
        return lay.order[bits..].contains(&(x, y)).then_some(Area::Remainder);
    }
    if (0..2).any(|c| (0..15).any(|i| format_pos(n, c, i) == (x, y))) {
        return None;
    }
    if (x, y) == (8, n - 8) {
        return Some(Area::DarkModule);
    }
    if (x < 8 && y < 8) || (x >= n - 8 && y < 8) || (x < 8 && y >= n - 8) {
        return Some(Area::Finders);
    }
    if x == 6 || y == 6 {
        return Some(Area::Timing);
    }
    if version >= 7 && ((x >= n - 11 && y < 6) || (y >= n - 11 && x < 6)) {
        return Some(Area::Version);
    }
    Some(Area::Alignment)
}

/// `area` of every module of a version.
fn areas(version: usize) -> &'static [Option<Area>] {
    static ALL: [OnceLock<Vec<Option<Area>>>; 41] = [const { OnceLock::new() }; 41];
    ALL[version].get_or_init(|| {
        let n = layout(version).size;
        (0..n * n).map(|i| area(version, i % n, i / n)).collect()
    })
}

fn fill() -> impl Strategy<Value = Fill> {
    prop_oneof![
        2 => Just(Fill::Inverted),
        1 => Just(Fill::Dark),
        1 => Just(Fill::Light),
        2 => any::<u64>().prop_map(Fill::Random),
    ]
}

fn one_area() -> impl Strategy<Value = Area> {
    prop_oneof![
        Just(Area::Finders),
        Just(Area::Timing),
        Just(Area::Alignment),
        Just(Area::Version),
        Just(Area::DarkModule),
        Just(Area::Remainder),
    ]
}

const ALL: [Area; 6] = [
    Area::Finders,
    Area::Timing,
    Area::Alignment,
    Area::Version,
    Area::DarkModule,
    Area::Remainder,
];

impl Prop for C27 {
    type Case = C27Case;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "Symbols of every version, level and mask, half of them with repairable damage to their codewords, with some or all of the areas that carry nothing (finder patterns, timing patterns, alignment patterns, version information, dark module, remainder bits) inverted, made dark, made light or filled at random: the same text and information as for the untouched symbol. Non-trivial: at least one module of those areas has changed."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(12_800, 600_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<C27Case> {
        let (v, l, _) = vlm(idx);
        let spoilt = prop_oneof![
            2 => fill().prop_map(|f| ALL.iter().map(|&a| (a, f)).collect::<Vec<_>>()),
            3 => prop::collection::vec((one_area(), fill()), 1..4),
        ];
        (
            sym_case(idx),
            prop_oneof![
                Just(None).boxed(),
                repairable_damage(v, l).prop_map(Some).boxed()
            ],
            spoilt,
        )
            .prop_map(|(sym, damage, spoilt)| C27Case { sym, damage, spoilt })
            .boxed()
    }
    fn check(&self, c: &C27Case, ctx: &mut Ctx) -> Result<(), String> {
        let (v, l) = (c.sym.version, c.sym.level);
        let (segs, want) = c.sym.built();
        let mut sym = Symbol::from_segs(&segs, v, l, c.sym.mask);
        class_labels(ctx, v, l);
        let mut errors = 0;
        if let Some(d) = &c.damage {
            apply_damage(&mut sym, d);
            errors = d.iter().flatten().map(|e| e.1.count_ones()).sum();
        }
        let before = sym.dark.clone();
        let (n, areas) = (sym.size, areas(v));
        for y in 0..n {
            for x in 0..n {
                let Some(a) = areas[y * n + x] else { continue };
                for (k, &(b, f)) in c.spoilt.iter().enumerate() {
                    if a != b {
                        continue;
                    }
                    let m = &mut sym.dark[y * n + x];
                    match f {
                        Fill::Inverted => *m = !*m,
                        Fill::Dark => *m = true,
                        Fill::Light => *m = false,
                        Fill::Random(seed) => {
                            let mut h = seed ^ ((k as u64) << 40) ^ ((y * n + x) as u64);
                            h = (h ^ (h >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                            h = (h ^ (h >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                            *m = (h >> 40) & 1 == 1;
                        }
                    }
                }
            }
        }
        for (i, (p, q)) in before.iter().zip(&sym.dark).enumerate() {
            if p != q {
                ctx.nontrivial();
                if let Some(a) = areas[i] {
                    let s = format!("{a:?} spoilt");
                    if !ctx.labels.contains(&s) {
                        ctx.label(s);
                    }
                }
            }
        }
        let px = sym.pixels();
        ctx.comparisons += 2;
        expect_text(&plain(&px, v), &want)?;
        let (text, info) = with_info(&px, v).map_err(|e| format!("with information: {:?}", e.msg))?;
        expect_text(&Ok(text), &want)?;
        let due = bardecoder::util::qr::QRInfo {
            version: v as u32,
            ec_level: ec(l),
            total_data: data_codewords(v, l) as u32 * 8,
            errors,
        };
        if info != due {
            return Err(format!("information {info:?}, expected {due:?}"));
        }
        Ok(())
    }
}
