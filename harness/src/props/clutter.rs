//! C26: a code among other things.

use super::image::*;
use super::scene::*;
use crate::draw::*;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C26Case {
    /// what else is in the picture; its own sides do not count
    pub scene: Scene,
    pub pic: Upright,
    pub quarter: u8,
    /// room to the left, above, to the right and below the quiet zone
    pub room: [u32; 4],
}

pub struct C26;

impl Prop for C26 {
    type Case = C26Case;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "A code (versions 1 to 12, 3 to 8 pixels per module, any quarter turn) with its quiet zone of 4 to 7 modules on top of a picture of anything without a whole code (flat, graded, checkered or noisy ground, patches, bars, frames, lone finder patterns, triples of them, mirrored, scrambled and cut codes), with up to 299 pixels of that on each side, in one picture of 13 up to 2799 on one of them. Exactly one text, the encoded one, with its version, level and size and no errors. Non-trivial: not excluded, and not all of the rest is of one colour."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(12_000, 400_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<C26Case> {
        let (v, l, m) = pick(idx, 6);
        let v = if v > 12 { v % 12 + 1 } else { v };
        let room = || prop_oneof![1 => Just(0u32), 1 => 1u32..60, 3 => 60u32..300];
        // now and then much more on one side
        let far = prop_oneof![12 => Just(0u32), 1 => 300u32..2500];
        (
            broken(if idx % 2 == 0 { 3 } else { 10 }),
            (code_of(v, l, m), 3i64..=8, 4i64..=7).prop_map(|(code, scale, quiet)| Upright {
                code,
                scale,
                quiet,
                margin: [0; 4],
            }),
            0u8..4,
            [room(), room(), room(), room()],
            (far, 0usize..4),
        )
            .prop_map(|(scene, pic, quarter, mut room, (far, side))| {
                room[side] += far;
                C26Case { scene, pic, quarter, room }
            })
            .boxed()
    }
    fn check(&self, c: &C26Case, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, want) = c.pic.code.symbol();
        let tile = rotate(&c.pic.picture(&sym, BLACK, WHITE), c.quarter);
        let mut scene = c.scene.clone();
        scene.w = tile.width() + c.room[0] + c.room[2];
        scene.h = tile.height() + c.room[1] + c.room[3];
        let mut img = scene.picture();
        image::imageops::replace(&mut img, &tile, c.room[0].into(), c.room[1].into());
        let mut marks = c.pic.turned(&sym, c.quarter);
        for m in &mut marks {
            m.x += f64::from(c.room[0]);
            m.y += f64::from(c.room[1]);
        }
        ctx.label(match c.scene.items.len() {
            0 => "ground only",
            1..=2 => "1-2 other things",
            _ => "3 and more other things",
        });
        if !domain(&prepared(&img), &marks, None, ctx) {
            return Ok(());
        }
        let (x1, y1) = (c.room[0] + tile.width(), c.room[1] + tile.height());
        let first = img.get_pixel(0, 0);
        let beside = |x: u32, y: u32| x < c.room[0] || y < c.room[1] || x >= x1 || y >= y1;
        if img.enumerate_pixels().any(|(x, y, p)| p != first && beside(x, y)) {
            ctx.nontrivial();
        }
        ctx.comparisons += 1;
        let got = decode_info(&img);
        if got.len() > 1 {
            ctx.label("further locations");
        }
        expect_one(&got, &want, &c.pic.code.info(0))
    }
}
