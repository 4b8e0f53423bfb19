//! C13: binarisation.

use crate::run::*;
use bardecoder::prepare::{BlockedMean, Prepare};
use image::{GrayImage, Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A small generator of pixel noise.
pub struct Noise(pub u64);
impl Noise {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

// ---------------------------------------------------------------- model

/// Sums of blocks with prefix sums over them.
pub struct Blocks {
    /// blocks per axis, an incomplete last one included
    n: [usize; 2],
    /// complete blocks per axis
    whole: [usize; 2],
    bs: usize,
    stride: usize,
    sum: Vec<u64>,
    cnt: Vec<u64>,
}

impl Blocks {
    pub fn new(gray: &GrayImage, bs: u32, mean: u32) -> Blocks {
        let (w, h) = (gray.width() as usize, gray.height() as usize);
        let bs = bs as usize;
        let n = [w.div_ceil(bs), h.div_ceil(bs)];
        let row = n[0] + 1;
        let mut sum = vec![0u64; row * (n[1] + 1)];
        let mut cnt = sum.clone();
        let raw = gray.as_raw();
        for y in 0..h {
            for x in 0..w {
                let i = (y / bs + 1) * row + x / bs + 1;
                sum[i] += u64::from(raw[y * w + x]);
                cnt[i] += 1;
            }
        }
        for v in [&mut sum, &mut cnt] {
            for y in 1..=n[1] {
                for x in 1..=n[0] {
                    v[y * row + x] += v[y * row + x - 1];
                }
            }
            for y in 1..=n[1] {
                for x in 1..=n[0] {
                    v[y * row + x] += v[(y - 1) * row + x];
                }
            }
        }
        Blocks {
            n,
            whole: [w / bs, h / bs],
            bs,
            stride: (mean as usize - 1) / 2,
            sum,
            cnt,
        }
    }

    /// Sum and count of the blocks [x0, x1) x [y0, y1).
    fn window(&self, x0: usize, x1: usize, y0: usize, y1: usize) -> (u64, u64) {
        let row = self.n[0] + 1;
        let f = |v: &[u64]| {
            v[y1 * row + x1] + v[y0 * row + x0] - v[y0 * row + x1] - v[y1 * row + x0]
        };
        (f(&self.sum), f(&self.cnt))
    }

    /// The range of neighbouring blocks along an axis; `through`: up to and including the block
    /// `stride` further on, else up to but without it; `part`: with an incomplete last block.
    fn range(&self, axis: usize, b: usize, through: bool, part: bool) -> (usize, usize) {
        let lo = b.saturating_sub(self.stride);
        let last = if part { self.n[axis] } else { self.whole[axis] };
        let hi = (b + self.stride + usize::from(through)).min(last).max(lo + 1);
        (lo, hi)
    }

    pub fn mean(&self, bx: usize, by: usize, through: bool, part: bool) -> (u64, u64) {
        let (x0, x1) = self.range(0, bx, through, part);
        let (y0, y1) = self.range(1, by, through, part);
        self.window(x0, x1, y0, y1)
    }
}

fn white(p: u8, (sum, cnt): (u64, u64)) -> bool {
    if sum > 250 * cnt {
        true
    } else if sum < 5 * cnt {
        false
    } else {
        u64::from(p) * cnt > sum
    }
}

/// The binarisation as it is documented, the window reaching from `stride` blocks before up to
/// but without the block `stride` after it, incomplete blocks not counted.
pub fn binarise(gray: &GrayImage, bs: u32, mean: u32) -> GrayImage {
    let b = Blocks::new(gray, bs, mean);
    let means: Vec<(u64, u64)> = (0..b.n[1])
        .flat_map(|y| (0..b.n[0]).map(move |x| (x, y)))
        .map(|(x, y)| b.mean(x, y, false, false))
        .collect();
    let mut out = gray.clone();
    for (x, y, p) in out.enumerate_pixels_mut() {
        let m = means[(y / bs) as usize * b.n[0] + (x / bs) as usize];
        p.0[0] = if white(p.0[0], m) { 255 } else { 0 };
    }
    out
}

// ---------------------------------------------------------------- pictures

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fill {
    Flat([u8; 3]),
    Grey { lo: u8, hi: u8, seed: u64 },
    Colour { seed: u64, alpha: bool },
    Ramp { from: u8, to: u8, vertical: bool, noise: u8, seed: u64 },
    Checker { a: u8, b: u8, cell: u32 },
    /// mostly one extreme with specks of anything
    Specks { base: u8, every: u32, seed: u64 },
}

impl Fill {
    pub fn strategy() -> BoxedStrategy<Fill> {
        let level = || {
            prop_oneof![
                3 => any::<u8>(),
                1 => 0u8..8,
                1 => 247u8..=255,
                1 => Just(128u8),
            ]
        };
        prop_oneof![
            1 => any::<[u8; 3]>().prop_map(Fill::Flat),
            1 => level().prop_map(|l| Fill::Flat([l; 3])),
            3 => (level(), level(), any::<u64>())
                .prop_map(|(a, b, seed)| Fill::Grey { lo: a.min(b), hi: a.max(b), seed }),
            2 => (any::<u64>(), any::<bool>()).prop_map(|(seed, alpha)| Fill::Colour { seed, alpha }),
            2 => (level(), level(), any::<bool>(), 0u8..20, any::<u64>()).prop_map(
                |(from, to, vertical, noise, seed)| Fill::Ramp { from, to, vertical, noise, seed }
            ),
            2 => (level(), level(), 1u32..20).prop_map(|(a, b, cell)| Fill::Checker { a, b, cell }),
            2 => (level(), 2u32..60, any::<u64>())
                .prop_map(|(base, every, seed)| Fill::Specks { base, every, seed }),
        ]
        .boxed()
    }

    pub fn paint(&self, img: &mut RgbaImage, x0: u32, y0: u32, w: u32, h: u32) {
        let mut r = match self {
            Fill::Grey { seed, .. }
            | Fill::Colour { seed, .. }
            | Fill::Ramp { seed, .. }
            | Fill::Specks { seed, .. } => Noise(*seed),
            _ => Noise(0),
        };
        let g = |v: u8| Rgba([v, v, v, 255]);
        for y in 0..h {
            for x in 0..w {
                let p = match *self {
                    Fill::Flat([a, b, c]) => Rgba([a, b, c, 255]),
                    Fill::Grey { lo, hi, .. } => {
                        g(lo + r.below(u64::from(hi - lo) + 1) as u8)
                    }
                    Fill::Colour { alpha, .. } => {
                        let v = r.next().to_le_bytes();
                        Rgba([v[0], v[1], v[2], if alpha { v[3] } else { 255 }])
                    }
                    Fill::Ramp { from, to, vertical, noise, .. } => {
                        let (i, n) = if vertical { (y, h) } else { (x, w) };
                        let v = i64::from(from)
                            + (i64::from(to) - i64::from(from)) * i64::from(i) / i64::from(n)
                            + r.below(u64::from(noise) + 1) as i64;
                        g(v.clamp(0, 255) as u8)
                    }
                    Fill::Checker { a, b, cell } => {
                        g(if (x / cell + y / cell) % 2 == 0 { a } else { b })
                    }
                    Fill::Specks { base, every, .. } => {
                        let v = r.next();
                        if (v >> 8) % u64::from(every) == 0 {
                            g(v as u8)
                        } else {
                            g(base)
                        }
                    }
                };
                img.put_pixel(x0 + x, y0 + y, p);
            }
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Patch {
    pub x: u8,
    pub y: u8,
    pub w: u8,
    pub h: u8,
    pub fill: Fill,
}

impl Patch {
    pub fn strategy() -> BoxedStrategy<Patch> {
        (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), Fill::strategy())
            .prop_map(|(x, y, w, h, fill)| Patch { x, y, w, h, fill })
            .boxed()
    }
    /// x0, y0, width, height in a picture
    pub fn area(&self, w: u32, h: u32) -> (u32, u32, u32, u32) {
        let x0 = u32::from(self.x) * w / 256;
        let y0 = u32::from(self.y) * h / 256;
        (
            x0,
            y0,
            (u32::from(self.w) * w / 256 + 1).min(w - x0),
            (u32::from(self.h) * h / 256 + 1).min(h - y0),
        )
    }
    pub fn paint(&self, img: &mut RgbaImage) {
        if img.width() == 0 || img.height() == 0 {
            return;
        }
        let (x, y, w, h) = self.area(img.width(), img.height());
        self.fill.paint(img, x, y, w, h);
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C13Case {
    pub w: u32,
    pub h: u32,
    pub bs: u32,
    pub mean: u32,
    pub fill: Fill,
    pub patches: Vec<Patch>,
    /// a change elsewhere
    pub other: Patch,
    pub offset: u8,
}

impl C13Case {
    fn picture(&self) -> RgbaImage {
        let mut img = RgbaImage::new(self.w, self.h);
        self.fill.paint(&mut img, 0, 0, self.w, self.h);
        for p in &self.patches {
            p.paint(&mut img);
        }
        img
    }
}

fn transposed_rgba(img: &RgbaImage) -> RgbaImage {
    RgbaImage::from_fn(img.height(), img.width(), |x, y| *img.get_pixel(y, x))
}
fn transposed(img: &GrayImage) -> GrayImage {
    GrayImage::from_fn(img.height(), img.width(), |x, y| *img.get_pixel(y, x))
}

pub struct C13;

impl Prop for C13 {
    type Case = C13Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Pictures of 0 to 120 (thorough 400) pixels a side (one in 1024: strips of up to 70000 pixels, one in 16384: 4400 to 4700 pixels a side, prepared with blocks of 400 to 5000 pixels), flat, noisy, graded, checkered or speckled in grey or colour with rectangles of other kinds, block sizes 1 to 20 and window sizes 1 to 15. Same size, only 0 and 255; every pixel as the comparison with the neighbourhood mean demands (white if the mean is over 250, black if under 5), where the ways of counting the last block of the window and incomplete blocks agree about it; a change elsewhere has no influence beyond the neighbourhood; transposing commutes; adding a constant without clipping, the means staying between 5 and 250, changes nothing. Non-trivial: both colours appear and at least half of the pixels are determined."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(150_000, 1_500_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C13Case> {
        let max: u32 = t.pick(120, 400);
        let side = || prop_oneof![1 => 0u32..6, 2 => 6u32..40, 4 => 40..=max];
        let block = || if idx % 2 == 0 { Just((5u32, 7u32)).boxed() } else { (1u32..=20, 1u32..=15).boxed() };
        let giant = idx % 16384 == 16383;
        let shape = if giant {
            // giant pictures and blocks
            let big = 4400u32..4700;
            (big.clone(), big, (prop_oneof![400u32..700, 700u32..5000], 9u32..=15)).boxed()
        } else if idx % 1024 == 1023 {
            // giant strips
            (30_000u32..70_000, 1u32..12, block(), any::<bool>())
                .prop_map(|(w, h, b, turn)| if turn { (h, w, b) } else { (w, h, b) })
                .boxed()
        } else {
            (side(), side(), block()).boxed()
        };
        (
            shape,
            if giant {
                // bright enough for large sums
                (225u8..245, any::<u64>()).prop_map(|(lo, seed)| Fill::Grey { lo, hi: 255, seed }).boxed()
            } else {
                Fill::strategy()
            },
            prop::collection::vec(Patch::strategy(), 0..4),
            Patch::strategy(),
            any::<u8>(),
        )
            .prop_map(|((w, h, (bs, mean)), fill, patches, other, offset)| C13Case {
                w,
                h,
                bs,
                mean,
                fill,
                patches,
                other,
                offset,
            })
            .boxed()
    }
    fn check(&self, c: &C13Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.picture();
        let prep = BlockedMean::new(c.bs, c.mean);
        let got = prep.prepare(&img);
        ctx.comparisons += 1;
        if got.dimensions() != img.dimensions() {
            return Err(format!("size {:?} instead of {:?}", got.dimensions(), img.dimensions()));
        }
        if let Some(p) = got.pixels().find(|p| p.0[0] != 0 && p.0[0] != 255) {
            return Err(format!("grey value {} in the prepared image", p.0[0]));
        }
        if c.w == 0 || c.h == 0 {
            ctx.label("empty picture");
            return Ok(());
        }
        let gray = image::imageops::grayscale(&img);
        let b = Blocks::new(&gray, c.bs, c.mean);
        let (nx, ny) = (b.n[0], b.n[1]);
        // the means of the possible readings
        let mut means: Vec<[(u64, u64); 4]> = vec![];
        for y in 0..ny {
            for x in 0..nx {
                let mut m = [(0, 0); 4];
                for (i, o) in m.iter_mut().enumerate() {
                    *o = b.mean(x, y, i & 1 == 1, i & 2 == 2);
                }
                means.push(m);
            }
        }
        let mut determined = 0;
        for (x, y, p) in gray.enumerate_pixels() {
            let m = &means[y as usize / b.bs * nx + x as usize / b.bs];
            let w: Vec<bool> = m.iter().map(|&m| white(p.0[0], m)).collect();
            if w.iter().any(|&k| k != w[0]) {
                continue;
            }
            determined += 1;
            if (got.get_pixel(x, y).0[0] == 255) != w[0] {
                return Err(format!(
                    "pixel ({x}, {y}) of brightness {} is {} though the mean around it is {:.3}",
                    p.0[0],
                    got.get_pixel(x, y).0[0],
                    m[0].0 as f64 / m[0].1 as f64
                ));
            }
        }
        let whites = got.pixels().filter(|p| p.0[0] == 255).count();
        let all = (c.w * c.h) as usize;
        if whites > 0 && whites < all && determined * 2 >= all {
            ctx.nontrivial();
        }
        ctx.label(if whites == 0 {
            "all black"
        } else if whites == all {
            "all white"
        } else {
            "both colours"
        });
        if c.w * c.h > 16_000_000 {
            ctx.label("more than 16 million pixels");
        } else if c.w.max(c.h) >= 30_000 {
            ctx.label("strip of 30000 and more pixels");
        }
        if c.w % c.bs != 0 || c.h % c.bs != 0 {
            ctx.label("incomplete blocks");
        }
        if determined == all {
            ctx.label("every pixel determined");
        }
        // no influence from elsewhere
        let (ox, oy, ow, oh) = c.other.area(c.w, c.h);
        let mut changed = img.clone();
        c.other.fill.paint(&mut changed, ox, oy, ow, oh);
        let got2 = prep.prepare(&changed);
        ctx.comparisons += 1;
        let reach = b.stride as i64 + 1;
        let bs = i64::from(c.bs);
        let far = |p: u32, o: u32, n: u32| {
            let (p, a, z) = (i64::from(p) / bs, i64::from(o) / bs, i64::from(o + n - 1) / bs);
            p < a - reach || p > z + reach
        };
        let mut beyond = 0;
        for (x, y, p) in got.enumerate_pixels() {
            if far(x, ox, ow) || far(y, oy, oh) {
                beyond += 1;
                if got2.get_pixel(x, y) != p {
                    return Err(format!("pixel ({x}, {y}) changes with the pixels from ({ox}, {oy}) on, {ow} x {oh}, outside of its neighbourhood"));
                }
            }
        }
        if beyond > 0 {
            ctx.label("pixels beyond a change");
        }
        // transposition
        ctx.comparisons += 1;
        if transposed(&prep.prepare(&transposed_rgba(&img))) != got {
            return Err("the transposed picture gives another result".into());
        }
        // offset
        let top = img.pixels().map(|p| p.0[..3].iter().max().copied().unwrap()).max().unwrap();
        let off = (u32::from(c.offset) % (256 - u32::from(top))) as u8;
        let inside = |m: &(u64, u64), o: u8| {
            let s = m.0 + u64::from(o) * m.1;
            s >= 5 * m.1 && s <= 250 * m.1
        };
        if off > 0
            && img.pixels().all(|p| p.0[0] == p.0[1] && p.0[1] == p.0[2])
            && means.iter().flatten().all(|m| inside(m, 0) && inside(m, off))
        {
            ctx.label("brightened");
            ctx.comparisons += 1;
            let mut lit = img.clone();
            for p in lit.pixels_mut() {
                for k in 0..3 {
                    p.0[k] += off;
                }
            }
            if prep.prepare(&lit) != got {
                return Err(format!("brightening everything by {off} changes the result"));
            }
        }
        Ok(())
    }
}
