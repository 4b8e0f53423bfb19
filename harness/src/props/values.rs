//! C28: the value types of the interface: points, displacements and module data.

use crate::run::*;
use bardecoder::util::qr::QRData;
use bardecoder::util::{Delta, Point};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A step of a walk: what is done to the current point and displacement.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    PointPlus,
    PointMinus,
    /// the displacement becomes the point minus this one
    FromPoint(f64, f64),
    Plus(f64, f64),
    Minus(f64, f64),
    Times(f64),
    TimesLeft(f64),
    Over(f64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub start: (f64, f64),
    pub by: (f64, f64),
    pub ops: Vec<Op>,
    pub version: u32,
    /// pattern of dark modules: module i is dark if bit i % 64 of it is set, xor i / 64 is odd
    pub pattern: u64,
    pub at: Vec<(u16, u16)>,
}

pub struct C28;

fn number() -> impl Strategy<Value = f64> {
    prop_oneof![
        3 => -3000.0..3000.0f64,
        1 => (-40i32..40).prop_map(f64::from),
        1 => -1.0..1.0f64,
        1 => -1e12..1e12f64,
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => Just(Op::PointPlus),
        2 => Just(Op::PointMinus),
        2 => (number(), number()).prop_map(|(x, y)| Op::FromPoint(x, y)),
        1 => (number(), number()).prop_map(|(x, y)| Op::Plus(x, y)),
        1 => (number(), number()).prop_map(|(x, y)| Op::Minus(x, y)),
        1 => number().prop_map(Op::Times),
        1 => number().prop_map(Op::TimesLeft),
        1 => number().prop_map(Op::Over),
    ]
}

/// Within the rounding of another order of the same operations.
fn near(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-12 * scale.max(1e-3)
}

impl Prop for C28 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "Walks of up to 12 operations on a point and a displacement, every step compared with the coordinates worked out one by one; and module data of a generated version and pattern, whose size and generated places are compared with the pattern. Non-trivial: at least two operations and two places."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Coordinates are finite; division is by numbers other than zero; results may differ by the rounding of one operation (1e-12 of the operands).".into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(100_000, 4_000_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<Case> {
        let version = idx as u32 % 40 + 1;
        let n = version as u16 * 4 + 17;
        (
            (number(), number()),
            (number(), number()),
            prop::collection::vec(op(), 0..12),
            any::<u64>(),
            prop::collection::vec((0..n, 0..n), 0..40),
        )
            .prop_map(move |(start, by, ops, pattern, at)| Case {
                start,
                by,
                ops,
                version,
                pattern,
                at,
            })
            .boxed()
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let mut p = Point { x: c.start.0, y: c.start.1 };
        let mut d = Delta { dx: c.by.0, dy: c.by.1 };
        for (i, &o) in c.ops.iter().enumerate() {
            // the operands as they are, so that roundings do not add up
            let (px, py, dx, dy) = (p.x, p.y, d.dx, d.dy);
            if [px, py, dx, dy].iter().any(|v| v.abs() > 1e100) {
                break;
            }
            let (mut wp, mut wd) = ((px, py), (dx, dy));
            let mut size = [px, py, dx, dy].iter().fold(0.0f64, |a, v| a.max(v.abs()));
            match o {
                Op::PointPlus => {
                    p = p + d;
                    wp = (px + dx, py + dy);
                }
                Op::PointMinus => {
                    p = p - d;
                    wp = (px - dx, py - dy);
                }
                Op::FromPoint(x, y) => {
                    d = p - Point { x, y };
                    wd = (px - x, py - y);
                    size = size.max(x.abs()).max(y.abs());
                }
                Op::Plus(x, y) => {
                    d = d + Delta { dx: x, dy: y };
                    wd = (dx + x, dy + y);
                    size = size.max(x.abs()).max(y.abs());
                }
                Op::Minus(x, y) => {
                    d = d - Delta { dx: x, dy: y };
                    wd = (dx - x, dy - y);
                    size = size.max(x.abs()).max(y.abs());
                }
                Op::Times(k) => {
                    d = d * k;
                    wd = (dx * k, dy * k);
                    size = size.max((dx * k).abs()).max((dy * k).abs());
                }
                Op::TimesLeft(k) => {
                    d = k * d;
                    wd = (dx * k, dy * k);
                    size = size.max((dx * k).abs()).max((dy * k).abs());
                }
                Op::Over(k) => {
                    if k.abs() < 1e-6 {
                        continue;
                    }
                    d = d / k;
                    wd = (dx / k, dy / k);
                    size = size.max((dx / k).abs()).max((dy / k).abs());
                }
            }
            ctx.comparisons += 1;
            let fine = near(p.x, wp.0, size) && near(p.y, wp.1, size) && near(d.dx, wd.0, size) && near(d.dy, wd.1, size);
            if !fine {
                return Err(format!(
                    "step {i} ({o:?}) made {p:?} and {d:?} of ({px}, {py}) and ({dx}, {dy}), expected {wp:?} and {wd:?}"
                ));
            }
        }
        let n = c.version as usize * 4 + 17;
        let dark = |i: usize| (c.pattern >> (i % 64)) & 1 == (i / 64 % 2) as u64;
        let data: Vec<u8> = (0..n * n).map(|i| if dark(i) { 0 } else { 255 }).collect();
        let q = QRData::new(data.clone(), c.version);
        ctx.comparisons += 1 + c.at.len() as u64;
        if q.side as usize != n || q.version != c.version || q.data != data {
            return Err(format!("module data of version {} has side {} and version {}", c.version, q.side, q.version));
        }
        for &(x, y) in &c.at {
            let got = q[[u32::from(x), u32::from(y)]];
            let want = u8::from(dark(usize::from(y) * n + usize::from(x)));
            if got != want {
                return Err(format!("module ({x}, {y}) of version {} reads {got}, expected {want}", c.version));
            }
        }
        if c.ops.len() >= 2 && c.at.len() >= 2 {
            ctx.nontrivial();
        }
        Ok(())
    }
}
