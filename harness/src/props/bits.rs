//! C16: the bit reader against a bit vector.

use crate::run::*;
use bardecoder::util::Chomp;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Op {
    Chomp(u8),
    Or(u8),
    U16(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub bytes: Vec<u8>,
    pub ops: Vec<Op>,
    /// read what is left in steps of this many bits afterwards
    pub tail: u8,
}

pub struct C16;

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => (1u8..=8).prop_map(Op::Chomp),
        2 => (1u8..=8).prop_map(Op::Or),
        4 => (1u8..=16).prop_map(Op::U16),
        1 => prop_oneof![9u8..=16, Just(255)].prop_map(Op::Chomp),
        1 => prop_oneof![9u8..=16, Just(255)].prop_map(Op::Or),
        1 => prop_oneof![17u8..=40, Just(255)].prop_map(Op::U16),
        1 => prop_oneof![Just(Op::Chomp(0)), Just(Op::Or(0)), Just(Op::U16(0))],
    ]
}

struct Model {
    bits: Vec<bool>,
    pos: usize,
}

impl Model {
    fn read(&mut self, n: u8, max: u8) -> Option<u16> {
        if n > max || self.pos + n as usize > self.bits.len() {
            return None;
        }
        let mut v = 0u16;
        for _ in 0..n {
            v = (v << 1) | u16::from(self.bits[self.pos]);
            self.pos += 1;
        }
        Some(v)
    }
}

impl Prop for C16 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "A byte string of 0 to 40 bytes (one in 20: up to 300, one in 400: up to 9000, one in 4000: up to 70000) and a history of up to 60 reads (chomp, chomp_or, chomp_or_u16) of 0 to 255 bits, then the rest bit by bit or in steps, compared read by read with a bit vector. Non-trivial: at least one read spans a byte border, and at least one is refused."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["A read of zero bits may be refused or yield zero.".into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(400_000, 8_000_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<Case> {
        let len = match idx {
            _ if idx % 4000 == 39 => 8_000..70_000,
            _ if idx % 400 == 39 => 200..9_000,
            _ if idx % 20 == 19 => 40..300,
            _ => 0..40usize,
        };
        (
            prop::collection::vec(
                prop_oneof![4 => any::<u8>(), 1 => Just(0xFFu8), 1 => Just(0u8)],
                len,
            ),
            prop::collection::vec(op(), 0..60),
            1u8..=8,
        )
            .prop_map(|(bytes, ops, tail)| Case { bytes, ops, tail })
            .boxed()
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Result<(), String> {
        let mut m = Model {
            bits: c
                .bytes
                .iter()
                .flat_map(|b| (0..8).map(move |i| (b >> (7 - i)) & 1 == 1))
                .collect(),
            pos: 0,
        };
        let mut real = Chomp::new(c.bytes.clone());
        let (mut span, mut refused) = (false, false);
        let tail = std::iter::repeat(Op::Chomp(c.tail)).take(c.bytes.len() * 8 / c.tail as usize + 1);
        let last = std::iter::repeat(Op::Chomp(1)).take(9);
        for (k, o) in c.ops.iter().copied().chain(tail).chain(last).enumerate() {
            let before = m.pos;
            let (want, got) = match o {
                Op::Chomp(n) => (m.read(n, 8), real.chomp(n).map(u16::from)),
                Op::Or(n) => (
                    m.read(n, 8),
                    match real.chomp_or(n, "no") {
                        Ok(v) => Some(u16::from(v)),
                        Err("no") => None,
                        Err(e) => return Err(format!("error {e} instead of the given one")),
                    },
                ),
                Op::U16(n) => (
                    m.read(n, 16),
                    match real.chomp_or_u16(n, "no16") {
                        Ok(v) => Some(v),
                        Err("no16") => None,
                        Err(e) => return Err(format!("error {e} instead of the given one")),
                    },
                ),
            };
            ctx.comparisons += 1;
            span |= want.is_some() && m.pos > before && before / 8 != (m.pos - 1) / 8;
            refused |= want.is_none();
            let none = matches!(o, Op::Chomp(0) | Op::Or(0) | Op::U16(0)) && got.is_none();
            if want != got && !none {
                return Err(format!(
                    "read {k} {o:?} at bit {before} of {}: expected {want:?}, got {got:?}",
                    m.bits.len()
                ));
            }
        }
        ctx.label(match c.bytes.len() {
            0..=39 => "up to 39 bytes",
            40..=299 => "40 to 299 bytes",
            300..=8191 => "300 to 8191 bytes",
            _ => "8192 bytes or more",
        });
        if span && refused && !c.ops.is_empty() {
            ctx.nontrivial();
        }
        Ok(())
    }
}
