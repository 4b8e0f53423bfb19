//! C08 to C11, C14, C19: pictures of codes through the default decoders.

use super::matrix::ec;
use super::prepare::binarise;
use crate::draw::*;
use crate::gens::*;
use crate::refqr::*;
use crate::run::*;
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::prepare::BlockedMean;
use bardecoder::util::qr::QRInfo;
use image::{GrayImage, Luma, Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type Results = Vec<Result<(String, QRInfo), String>>;

pub fn flat<T>(v: Vec<Result<T, anyhow::Error>>) -> Vec<Result<T, String>> {
    v.into_iter()
        .map(|r| r.map_err(|e| e.to_string()))
        .collect()
}

pub fn save_debug(img: &RgbaImage) {
    if let Ok(p) = std::env::var("VQ_IMG") {
        img.save(p).unwrap();
    }
}

pub fn decode_info(img: &RgbaImage) -> Results {
    save_debug(img);
    flat(bardecoder::default_decoder_with_info::<RgbaImage>().decode(img))
}

pub fn decode_plain(img: &RgbaImage) -> Vec<Result<String, String>> {
    flat(bardecoder::default_decoder::<RgbaImage>().decode(img))
}

/// A code to draw: what is written, and which mask.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Code {
    pub version: usize,
    pub level: Level,
    /// None: the mask the standard's penalty rules choose
    pub mask: Option<u8>,
    pub segs: Vec<SegSpec>,
}

impl Code {
    pub fn symbol(&self) -> (Symbol, String) {
        let segs = build(&self.segs, self.version, self.level);
        let t = text(&segs).expect("decodable segments");
        let s = match self.mask {
            Some(m) => Symbol::from_segs(&segs, self.version, self.level, m),
            None => Symbol::best_mask(&segs, self.version, self.level),
        };
        (s, t)
    }
    pub fn info(&self, errors: u32) -> QRInfo {
        QRInfo {
            version: self.version as u32,
            ec_level: ec(self.level),
            total_data: data_codewords(self.version, self.level) as u32 * 8,
            errors,
        }
    }
    pub fn size(&self) -> i64 {
        self.version as i64 * 4 + 17
    }
}

pub fn code_of(version: usize, level: Level, mask: Option<u8>) -> BoxedStrategy<Code> {
    prop_oneof![short_specs(), seg_specs(data_codewords(version, level))]
        .prop_map(move |segs| Code {
            version,
            level,
            mask,
            segs,
        })
        .boxed()
}

/// Version, level and mask of the idx-th picture: every other one of all versions, every other
/// one of versions 1 to `small`.
pub fn pick(idx: usize, small: usize) -> (usize, Level, Option<u8>) {
    let (v, l, m) = vlm(idx / 2);
    if idx % 2 == 0 {
        (v, l, Some(m))
    } else {
        let mask = if idx % 4 == 1 { None } else { Some(m) };
        ((idx / 2) % small + 1, l, mask)
    }
}

/// Exactly one text, with this information.
pub fn expect_one(got: &Results, want: &str, info: &QRInfo) -> Result<(), String> {
    let oks: Vec<_> = got.iter().filter_map(|r| r.as_ref().ok()).collect();
    let errs: Vec<_> = got.iter().filter_map(|r| r.as_ref().err()).take(3).collect();
    if oks.len() != 1 {
        return Err(format!(
            "{} texts instead of one among {} results {errs:?}",
            oks.len(),
            got.len()
        ));
    }
    if oks[0].0 != want {
        return Err(format!("text {:?} instead of {:?}", oks[0].0, want));
    }
    if oks[0].1 != *info {
        return Err(format!("information {:?} instead of {info:?}", oks[0].1));
    }
    Ok(())
}

fn label_scale(ctx: &mut Ctx, s: i64) {
    ctx.label(match s {
        0..=3 => "scale 3".to_string(),
        4..=6 => "scale 4-6".into(),
        7..=12 => "scale 7-12".into(),
        13..=30 => "scale 13-30".into(),
        31..=60 => "scale 31-60".into(),
        _ => "scale over 60".into(),
    });
}

fn label_version(ctx: &mut Ctx, v: usize) {
    ctx.label(match v {
        1 => "version 1",
        2..=6 => "version 2-6",
        7..=13 => "version 7-13",
        14..=26 => "version 14-26",
        _ => "version 27-40",
    });
}

// ---------------------------------------------------------------- upright pictures

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Upright {
    pub code: Code,
    pub scale: i64,
    pub quiet: i64,
    /// extra picture beyond the quiet zone: left, top, right, bottom
    pub margin: [i64; 4],
}

impl Upright {
    pub fn size(&self) -> (u32, u32) {
        let side = (self.code.size() + 2 * self.quiet) * self.scale;
        (
            (side + self.margin[0] + self.margin[2]) as u32,
            (side + self.margin[1] + self.margin[3]) as u32,
        )
    }
    pub fn origin(&self) -> (i64, i64) {
        (
            self.quiet * self.scale + self.margin[0],
            self.quiet * self.scale + self.margin[1],
        )
    }
    pub fn picture(&self, sym: &Symbol, dark: Rgba<u8>, light: Rgba<u8>) -> RgbaImage {
        let (w, h) = self.size();
        let mut img = canvas(w, h, light);
        let (x, y) = self.origin();
        draw(&mut img, sym, x, y, self.scale, self.quiet, dark, light);
        img
    }
    /// The picture ends within the quiet zone.
    pub fn cut(mut self, cut: [i64; 4]) -> Upright {
        for (m, c) in self.margin.iter_mut().zip(cut) {
            if c > 0 {
                *m = -(self.quiet * self.scale * c / 16);
            }
        }
        self
    }
    pub fn finders(&self, sym: &Symbol) -> Vec<Mark> {
        let (x, y) = self.origin();
        upright_finders(sym, x, y, self.scale)
    }
    /// The finder marks after a quarter turn clockwise of the picture, `k` times.
    pub fn turned(&self, sym: &Symbol, k: u8) -> Vec<Mark> {
        let (mut w, mut h) = self.size();
        let mut f = self.finders(sym);
        for _ in 0..k {
            for p in &mut f {
                let (x, y) = (p.x, p.y);
                p.x = f64::from(h) - y;
                p.y = x;
            }
            std::mem::swap(&mut w, &mut h);
        }
        f
    }
}

/// Now and then, how much of the quiet zone to cut off on each side, in 1/16.
pub fn cut() -> impl Strategy<Value = [i64; 4]> {
    let side = || prop_oneof![1 => Just(0i64), 1 => Just(16i64), 2 => 0i64..=16];
    prop_oneof![3 => Just([0i64; 4]), 1 => [side(), side(), side(), side()]]
}

/// `max`: largest side of the symbol in pixels, `min_scale`..`max_scale` pixels per module.
pub fn upright_of(code: BoxedStrategy<Code>, version: usize, min_scale: i64, max_scale: i64, max: i64) -> BoxedStrategy<Upright> {
    let top = (max / (version as i64 * 4 + 25)).clamp(min_scale, max_scale);
    let m = || prop_oneof![1 => Just(0i64), 3 => 0i64..70];
    // now and then a very wide or high picture
    let far = prop_oneof![
        20 => Just(0i64),
        3 => 70i64..max.max(71),
        1 => max..4 * max,
    ];
    (
        code,
        prop_oneof![2 => min_scale..=top.min(min_scale + 5), 1 => min_scale..=top],
        prop_oneof![2 => Just(4i64), 1 => 4i64..14],
        [m(), m(), m(), m()],
        (far, 0usize..4),
    )
        .prop_map(|(code, scale, quiet, mut margin, (far, side))| {
            margin[side] += far;
            Upright {
                code,
                scale,
                quiet,
                margin,
            }
        })
        .boxed()
}

/// The black and white picture the default preparation ought to make.
pub fn prepared(img: &RgbaImage) -> GrayImage {
    binarise(&image::imageops::grayscale(img), 5, 7)
}

pub fn domain(bw: &GrayImage, finders: &[Mark], modules: Option<f64>, ctx: &mut Ctx) -> bool {
    let fine = unambiguous(bw, finders, modules);
    if !fine {
        ctx.exclude("data imitates a finder pattern beside a true one");
    }
    fine
}

pub const DOMAIN: &str = "Pictures in which a plain 1:1:3:1:1 scanner of the harness cannot tell the true finder patterns, because data modules beside one imitate a finder pattern, are left out and counted as excluded.";

// ---------------------------------------------------------------- C08

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C08Case {
    pub pic: Upright,
    /// block size and block mean size of the preparation
    pub blocks: (u32, u32),
    /// the picture is enlarged by this factor in each direction, pixel by pixel, without smoothing
    #[serde(default)]
    pub enlarged: Option<(f64, f64)>,
}

/// Enlarge without smoothing: each pixel shows the place of the original that its centre shows.
pub fn enlarge(img: &RgbaImage, kx: f64, ky: f64) -> RgbaImage {
    let (w, h) = img.dimensions();
    let size = |n: u32, k: f64| (f64::from(n) * k).round().max(1.0) as u32;
    let at = |v: u32, k: f64, n: u32| (((f64::from(v) + 0.5) / k) as u32).min(n - 1);
    RgbaImage::from_fn(size(w, kx), size(h, ky), |x, y| *img.get_pixel(at(x, kx, w), at(y, ky, h)))
}

pub struct C08;

impl Prop for C08 {
    type Case = C08Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "A symbol (all versions, levels, masks or the standard's mask choice) drawn black on white at 3 to 60 pixels per module, quiet zone of 4 to 13 modules, 0 to 69 further pixels on each side (one picture in four ends within the quiet zone on some sides, down to no quiet zone at all; one picture in six: up to 5200 on one side, one in 256: up to 66000; one code in 128 at 61 to 140 pixels per module; one picture in four enlarged by up to 2 without smoothing, so that modules have a broken number of pixels, at least 4, and stretched by up to 3 percent or 0.6 modules of the finder distance), decoded with the default block sizes or those of the documentation: exactly one text, the encoded one, with exact version, level, size and zero errors. Non-trivial: not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(10_240, 200_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C08Case> {
        let (v, l, m) = pick(idx, 8);
        let max = t.pick(1300, 2400);
        if idx % 256 == 255 {
            // far out in a giant strip
            let v = v % 8 + 1;
            return (
                upright_of(code_of(v, l, m), v, 3, 4, 300),
                0usize..4,
                prop_oneof![32_500i64..33_500, 65_300i64..66_000],
            )
                .prop_map(|(mut pic, side, far)| {
                    pic.margin[side] += far;
                    pic.margin[1 - side % 2] %= 20;
                    pic.margin[3 - side % 2] %= 20;
                    C08Case { pic, blocks: (5, 7), enlarged: None }
                })
                .boxed();
        }
        let blocks = prop_oneof![3 => Just((5, 7)), 1 => Just((7, 9))];
        if idx % 128 == 77 {
            // a poster
            let v = v % 3 + 1;
            let top = t.pick(140, 300);
            return (code_of(v, l, m), 61i64..=top, [0i64..70, 0i64..70, 0i64..70, 0i64..70], blocks)
                .prop_map(|(code, scale, margin, blocks)| C08Case {
                    pic: Upright { code, scale, quiet: 4, margin },
                    blocks,
                    enlarged: None,
                })
                .boxed();
        }
        let stretch = (0.6 / (4.0 * v as f64 + 10.0)).min(0.03);
        (upright_of(code_of(v, l, m), v, 3, 60, max), cut(), blocks, prop::option::weighted(0.25, (1.0..2.0f64, prop::option::weighted(0.3, -1.0..1.0f64))))
            .prop_map(move |(pic, cut, blocks, k)| C08Case {
                enlarged: k.map(|(k, d): (f64, Option<f64>)| {
                    // 4 pixels per module at least
                    let k = k.max(4.0 / pic.scale as f64 + 0.1 * (k - 1.0));
                    let d = stretch * d.unwrap_or(0.0);
                    (k * (1.0 + d.max(0.0)), k * (1.0 - d.min(0.0)))
                }),
                pic: pic.cut(cut),
                blocks,
            })
            .boxed()
    }
    fn check(&self, c: &C08Case, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, want) = c.pic.code.symbol();
        let mut img = c.pic.picture(&sym, BLACK, WHITE);
        let mut f = c.pic.finders(&sym);
        if let Some((kx, ky)) = c.enlarged {
            img = enlarge(&img, kx, ky);
            for k in &mut f {
                (k.x, k.y, k.m) = (k.x * kx, k.y * ky, k.m * kx);
            }
            ctx.label("a broken number of pixels per module");
        }
        label_scale(ctx, c.pic.scale);
        label_version(ctx, c.pic.code.version);
        let bw = binarise(&image::imageops::grayscale(&img), c.blocks.0, c.blocks.1);
        let d = c.enlarged.filter(|_| c.pic.code.version >= 7).map(|_| c.pic.code.size() as f64 - 7.0);
        if !domain(&bw, &f, d, ctx) {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.comparisons += 1;
        let got = if c.blocks == (5, 7) {
            decode_info(&img)
        } else {
            ctx.label("modified block sizes");
            let mut b = bardecoder::default_builder_with_info::<RgbaImage>();
            b.prepare(Box::new(BlockedMean::new(c.blocks.0, c.blocks.1)));
            flat(b.build().decode(&img))
        };
        if got.len() > 1 {
            ctx.label("further results without text");
        }
        if c.pic.margin.iter().any(|&m| m < 0) {
            ctx.label("the picture ends within the quiet zone");
        }
        let (w, h) = c.pic.size();
        if w > 3 * h || h > 3 * w {
            ctx.label("more than three times as wide as high, or the other way round");
        }
        if w.max(h) > 32_768 {
            ctx.label("more than 32768 pixels wide or high");
        }
        expect_one(&got, &want, &c.pic.code.info(0))
    }
}

// ---------------------------------------------------------------- C09

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Turn {
    Quarter(u8),
    /// degrees; quarter turns on top; samples per pixel side
    Angle { degrees: f64, quarter: u8, ss: u32 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C09Case {
    pub pic: Upright,
    pub turn: Turn,
}

pub struct C09;

/// The largest angle generated: the detector judges the version by the width of the finder
/// patterns along a line, which grows with the angle.
pub fn max_angle(version: usize) -> f64 {
    let d = version as f64 * 4.0 + 10.0;
    (1.0 - 1.0 / d).acos().to_degrees()
}

impl C09Case {
    fn draw(&self, sym: &Symbol) -> (RgbaImage, Vec<Mark>) {
        match self.turn {
            Turn::Quarter(k) => (
                rotate(&self.pic.picture(sym, BLACK, WHITE), k),
                self.pic.turned(sym, k),
            ),
            Turn::Angle { degrees, quarter, ss } => {
                let (s, c) = (degrees + 90.0 * f64::from(quarter)).to_radians().sin_cos();
                let k = self.pic.scale as f64;
                let n = sym.size as f64;
                let q = self.pic.quiet as f64;
                // the turned square with its quiet zone lies inside of the picture
                let r = (n / 2.0 + q) * k * (s.abs() + c.abs());
                let w = (2.0 * r).ceil() + (self.pic.margin[0] + self.pic.margin[2]) as f64;
                let h = (2.0 * r).ceil() + (self.pic.margin[1] + self.pic.margin[3]) as f64;
                let (cx, cy) = (
                    r + self.pic.margin[0] as f64,
                    r + self.pic.margin[1] as f64,
                );
                let map = Map::affine(
                    c * k,
                    s * k,
                    -s * k,
                    c * k,
                    cx - (c - s) * k * n / 2.0,
                    cy - (s + c) * k * n / 2.0,
                );
                let mut img = canvas(w as u32, h as u32, WHITE);
                draw_map(&mut img, sym, &map, q, ss, [0.0; 3], [255.0; 3]);
                let f = [(3.5, 3.5), (n - 3.5, 3.5), (3.5, n - 3.5)]
                    .iter()
                    .map(|&(u, v)| {
                        let (x, y) = map.apply(u, v);
                        Mark { x, y, m: k }
                    })
                    .collect();
                (img, f)
            }
        }
    }
}

impl Prop for C09 {
    type Case = C09Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Pictures as in C08, turned by quarter turns, or drawn (hard-edged or smoothed, 5 and more pixels per module, 7 for version 1) at an angle of up to acos(1-1/d) on top of quarter turns, d being the distance of the finder patterns in modules (22 degrees for version 1, 6 for version 40). Exactly one text, the encoded one, with exact information (errors may be non-zero at an angle). Non-trivial: turned, not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(9_000, 120_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C09Case> {
        let (v, l, m) = pick(idx / 2, 8);
        let max = t.pick(1000, 1600);
        if idx % 2 == 0 {
            (upright_of(code_of(v, l, m), v, 3, 60, max), cut(), 1u8..4)
                .prop_map(|(pic, cut, k)| C09Case {
                    pic: pic.cut(cut),
                    turn: Turn::Quarter(k),
                })
                .boxed()
        } else {
            
            let a = max_angle(v);
            (
                upright_of(code_of(v, l, m), v, if v == 1 { 7 } else { 5 }, 20, max),
                -a..a,
                0u8..4,
                prop_oneof![2 => Just(1u32), 1 => 2u32..4],
            )
                .prop_map(|(pic, degrees, quarter, ss)| C09Case {
                    pic,
                    turn: Turn::Angle { degrees, quarter, ss },
                })
                .boxed()
        }
    }
    fn check(&self, c: &C09Case, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, want) = c.pic.code.symbol();
        let (img, finders) = c.draw(&sym);
        label_version(ctx, c.pic.code.version);
        label_scale(ctx, c.pic.scale);
        match c.turn {
            Turn::Quarter(k) => ctx.label(format!("{k} quarter turns")),
            Turn::Angle { degrees, .. } => {
                let a = degrees.abs();
                ctx.label(format!("angle up to {} degrees", (a / 4.0).ceil() as u32 * 4));
            }
        }
        save_debug(&img);
        let modules = match c.turn {
            Turn::Quarter(_) => None,
            Turn::Angle { .. } => Some(sym.size as f64 - 7.0),
        };
        if !domain(&prepared(&img), &finders, modules, ctx) {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.comparisons += 1;
        let got = decode_info(&img);
        let errors = got
            .iter()
            .find_map(|r| r.as_ref().ok())
            .map_or(0, |r| r.1.errors);
        let errors = match c.turn {
            Turn::Quarter(_) => 0,
            Turn::Angle { .. } => {
                if errors > 0 {
                    ctx.label("read with errors");
                }
                errors
            }
        };
        expect_one(&got, &want, &c.pic.code.info(errors))
    }
}

// ---------------------------------------------------------------- C11

fn binary(img: &RgbaImage) -> GrayImage {
    GrayImage::from_fn(img.width(), img.height(), |x, y| {
        Luma([if img.get_pixel(x, y).0[0] < 128 { 0 } else { 255 }])
    })
}

pub struct C11;

impl Prop for C11 {
    type Case = C09Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "The black and white drawings of C08 and quarter turns, all versions, given to the detector: exactly one location has its three points within one module of the symbol's own top left, top right and bottom left finder centres, its module size is within 4 percent and its version exact. Non-trivial: not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(16_000, 160_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C09Case> {
        let (v, l, m) = pick(idx, 10);
        (upright_of(code_of(v, l, m), v, 3, 60, t.pick(1200, 2400)), cut(), 0u8..4)
            .prop_map(|(pic, cut, k)| C09Case {
                pic: pic.cut(cut),
                turn: Turn::Quarter(k),
            })
            .boxed()
    }
    fn check(&self, c: &C09Case, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, _) = c.pic.code.symbol();
        let (img, f) = c.draw(&sym);
        label_version(ctx, c.pic.code.version);
        label_scale(ctx, c.pic.scale);
        if let Turn::Quarter(k) = c.turn {
            ctx.label(format!("{k} quarter turns"));
        }
        if !domain(&binary(&img), &f, None, ctx) {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.comparisons += 1;
        let locs = LineScan::new().detect(&binary(&img));
        let s = c.pic.scale as f64;
        let mut hits = 0;
        let mut all = vec![];
        for Location::QR(q) in &locs {
            let d = |p: &bardecoder::util::Point, m: &Mark| (p.x - m.x).hypot(p.y - m.y) / s;
            let e = [d(&q.top_left, &f[0]), d(&q.top_right, &f[1]), d(&q.bottom_left, &f[2])];
            all.push(format!("{q:?}"));
            if e.iter().all(|&e| e <= 1.0) {
                hits += 1;
                if q.version != c.pic.code.version as u32 {
                    return Err(format!("version {} for a code of version {}", q.version, c.pic.code.version));
                }
                if (q.module_size / s - 1.0).abs() > 0.04 {
                    return Err(format!("module size {} instead of {s}", q.module_size));
                }
            }
        }
        if hits != 1 {
            all.truncate(4);
            return Err(format!("{hits} locations on the code's finders {f:?}, among {} ({all:?})", locs.len()));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C10

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Placed {
    pub code: Code,
    pub scale: i64,
    pub quarter: u8,
    /// room around the quiet zone in its cell
    pub dx: i64,
    pub dy: i64,
    /// the data area is painted over in a checkered fashion: not decodable
    pub ruined: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C10Case {
    pub codes: Vec<Placed>,
    pub columns: usize,
    /// repeat the first code as it is at the end
    pub twice: bool,
}

pub struct C10;

impl C10Case {
    pub fn draw(&self) -> (RgbaImage, Vec<Mark>, Vec<String>) {
        let mut list: Vec<&Placed> = self.codes.iter().collect();
        if self.twice {
            list.push(&self.codes[0]);
        }
        let cols = self.columns.clamp(1, list.len());
        let side = |p: &Placed| (p.code.size() + 8) * p.scale;
        let cell = |p: &Placed| (side(p) + p.dx, side(p) + p.dy);
        let rows: Vec<&[&Placed]> = list.chunks(cols).collect();
        let width = rows
            .iter()
            .map(|r| r.iter().map(|p| cell(p).0).sum::<i64>())
            .max()
            .unwrap();
        let heights: Vec<i64> = rows
            .iter()
            .map(|r| r.iter().map(|p| cell(p).1).max().unwrap())
            .collect();
        let mut img = canvas(width as u32, heights.iter().sum::<i64>() as u32, WHITE);
        let mut marks = vec![];
        let mut texts = vec![];
        let mut y = 0;
        for (r, h) in rows.iter().zip(&heights) {
            let mut x = 0;
            for p in r.iter() {
                let (mut sym, t) = p.code.symbol();
                if p.ruined {
                    let lay = layout(sym.version);
                    for (i, &(a, b)) in lay.order.iter().enumerate() {
                        if i % 3 == 0 {
                            sym.dark[b * sym.size + a] ^= true;
                        }
                    }
                } else {
                    texts.push(t);
                }
                let one = Upright {
                    code: p.code.clone(),
                    scale: p.scale,
                    quiet: 4,
                    margin: [0; 4],
                };
                let tile = rotate(&one.picture(&sym, BLACK, WHITE), p.quarter);
                let (ox, oy) = (x + p.dx / 2, y + p.dy / 2);
                image::imageops::replace(&mut img, &tile, ox, oy);
                for mut m in one.turned(&sym, p.quarter) {
                    m.x += ox as f64;
                    m.y += oy as f64;
                    marks.push(m);
                }
                x += cell(p).0;
            }
            y += h;
        }
        (img, marks, texts)
    }
}

/// Two or three small codes in one picture.
pub fn group() -> BoxedStrategy<C10Case> {
    let placed = (
        (1usize..4, prop::sample::select(LEVELS.to_vec())).prop_flat_map(|(v, l)| code_of(v, l, None)),
        3i64..=4,
        0u8..4,
        0i64..20,
        0i64..20,
        prop_oneof![3 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(code, scale, quarter, dx, dy, ruined)| Placed { code, scale, quarter, dx, dy, ruined });
    (prop::collection::vec(placed, 2..4), 1usize..=3)
        .prop_map(|(codes, columns)| C10Case { codes, columns, twice: false })
        .boxed()
}

impl Prop for C10 {
    type Case = C10Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Two to six codes (versions 1 to 14, 3 to 8 pixels per module, any quarter turn, sometimes one of them twice, sometimes some of them ruined), in one of eight cases 7 to 20 of versions 1 to 3, in rows of cells with generated gaps. The texts returned are, as a multiset, those of the codes that are not ruined. Non-trivial: at least two readable codes, not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(6_000, 120_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<C10Case> {
        let crowd = idx % 8 == 7;
        let placed = move |j: usize| {
            let (v, l, m) = pick(idx * 7 + j, 6);
            let v = if crowd { v % 3 + 1 } else if v > 14 { v % 14 + 1 } else { v };
            (
                code_of(v, l, m),
                if crowd {
                    (3i64..=4).boxed()
                } else if idx % 3 == 0 {
                    Just(3 + (idx / 3 % 4) as i64).boxed()
                } else {
                    (3i64..=8).boxed()
                },
                0u8..4,
                0i64..40,
                0i64..40,
                prop_oneof![5 => Just(false), 1 => Just(true)],
            )
                .prop_map(|(code, scale, quarter, dx, dy, ruined)| Placed {
                    code,
                    scale,
                    quarter,
                    dx,
                    dy,
                    ruined,
                })
                .boxed()
        };
        let n = if crowd { 7 + idx / 8 % 14 } else { 2 + idx % 5 };
        (
            (0..n).map(placed).collect::<Vec<_>>(),
            1usize..=if crowd { 7 } else { 4 },
            prop_oneof![4 => Just(false), 1 => Just(true)],
        )
            .prop_map(|(codes, columns, twice)| C10Case {
                codes,
                columns,
                twice,
            })
            .boxed()
    }
    fn check(&self, c: &C10Case, ctx: &mut Ctx) -> Result<(), String> {
        let (img, marks, mut want) = c.draw();
        ctx.label(match marks.len() / 3 {
            n @ 0..=6 => format!("{n} codes"),
            7..=12 => "7-12 codes".into(),
            _ => "13 and more codes".into(),
        });
        if c.codes.iter().any(|p| p.ruined) {
            ctx.label("with ruined codes");
        }
        if c.twice {
            ctx.label("one code twice");
        }
        if !domain(&prepared(&img), &marks, None, ctx) {
            return Ok(());
        }
        if want.len() >= 2 {
            ctx.nontrivial();
        }
        ctx.comparisons += 1;
        save_debug(&img);
        let got = decode_plain(&img);
        let mut texts: Vec<String> = got.iter().filter_map(|r| r.as_ref().ok().cloned()).collect();
        texts.sort();
        want.sort();
        if texts != want {
            let missing = want.iter().filter(|t| !texts.contains(t)).count();
            return Err(format!(
                "{} texts instead of {} ({missing} of them missing): {texts:?}, expected {want:?}",
                texts.len(),
                want.len()
            ));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Stain {
    pub x: u8,
    pub y: u8,
    pub w: u8,
    pub h: u8,
    pub dark: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C19Case {
    pub pic: Upright,
    pub stains: Vec<Stain>,
    pub quarter: u8,
}

pub struct C19;

impl C19Case {
    /// The stained symbol: stains in turn, each as long as no block is damaged beyond capacity.
    fn stained(&self, clean: &Symbol) -> Symbol {
        let lay = layout(clean.version);
        let bl = blocks(clean.version, clean.level);
        let order = interleave_order(&bl);
        let n = clean.size;
        let mut word = vec![usize::MAX; n * n];
        for (i, &(x, y)) in lay.order.iter().enumerate() {
            if i / 8 < order.len() {
                word[y * n + x] = i / 8;
            }
        }
        let mut bad = vec![0u32; order.len()];
        let mut per = vec![0usize; bl.data.len()];
        let mut s = clean.clone();
        for st in &self.stains {
            let x0 = st.x as usize * n / 256;
            let y0 = st.y as usize * n / 256;
            'paint: for y in y0..(y0 + st.h as usize).min(n) {
                for x in x0..(x0 + st.w as usize).min(n) {
                    let at = y * n + x;
                    if lay.func[at] || s.dark[at] == st.dark {
                        continue;
                    }
                    let w = word[at];
                    if w != usize::MAX {
                        let wrong = s.dark[at] == clean.dark[at];
                        let b = order[w].0;
                        if wrong {
                            if bad[w] == 0 {
                                if per[b] == bl.t {
                                    break 'paint;
                                }
                                per[b] += 1;
                            }
                            bad[w] += 1;
                        } else {
                            bad[w] -= 1;
                            if bad[w] == 0 {
                                per[b] -= 1;
                            }
                        }
                    }
                    s.dark[at] = st.dark;
                }
            }
        }
        s
    }
}

impl Prop for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Drawn codes (5 and more pixels per module, any quarter turn) with 1 to 12 stains: rectangles of modules painted dark or light, sparing function patterns, painted until a block is at its error correction capacity. Exactly one text, the encoded one, with the number of wrong modules of codewords as the number of errors. Non-trivial: at least one wrong module, not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(10_000, 150_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C19Case> {
        let (v, l, m) = pick(idx, 8);
        let stain = (any::<u8>(), any::<u8>(), 1u8..16, 1u8..16, any::<bool>())
            .prop_map(|(x, y, w, h, dark)| Stain { x, y, w, h, dark });
        (
            upright_of(code_of(v, l, m), v, 5, 20, t.pick(1000, 1600)),
            prop::collection::vec(stain, 1..12),
            0u8..4,
        )
            .prop_map(|(pic, stains, quarter)| C19Case {
                pic,
                stains,
                quarter,
            })
            .boxed()
    }
    fn check(&self, c: &C19Case, ctx: &mut Ctx) -> Result<(), String> {
        let (clean, want) = c.pic.code.symbol();
        let sym = c.stained(&clean);
        let r = ref_decode(&sym.dark, sym.version).expect("stains within capacity");
        assert_eq!(r.text, want);
        let img = rotate(&c.pic.picture(&sym, BLACK, WHITE), c.quarter);
        label_version(ctx, sym.version);
        if !domain(&prepared(&img), &c.pic.turned(&sym, c.quarter), None, ctx) {
            return Ok(());
        }
        if r.errors > 0 {
            ctx.nontrivial();
        }
        ctx.label(match r.errors {
            0 => "no wrong modules",
            1..=9 => "1-9 wrong modules",
            10..=99 => "10-99 wrong modules",
            _ => "100 and more wrong modules",
        });
        ctx.comparisons += 1;
        expect_one(&decode_info(&img), &want, &c.pic.code.info(r.errors))
    }
}
