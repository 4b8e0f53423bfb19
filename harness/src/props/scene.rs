//! C07 and C20: pictures of anything.

use super::image::*;
use super::prepare::{Fill, Noise, Patch};
use crate::draw::*;
use crate::refqr::*;
use crate::run::*;
use bardecoder::prepare::BlockedMean;
use image::{Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Where something lies: its centre in thousandths of the picture, size of a module, rotation,
/// and distortion.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Place {
    pub x: i32,
    pub y: i32,
    pub scale: f64,
    pub degrees: f64,
    pub stretch: f64,
    pub skew: f64,
    pub mirrored: bool,
    pub dark: u8,
    pub light: u8,
    pub quiet: u8,
}

impl Place {
    pub fn strategy() -> BoxedStrategy<Place> {
        // most of the time such that it is found
        prop_oneof![
            3 => (Place::anyhow(), 150i32..850, 150i32..850, 0u32..4, 2u32..7).prop_map(|(p, x, y, q, k)| Place {
                x,
                y,
                scale: f64::from(k),
                degrees: 90.0 * f64::from(q),
                stretch: 1.0,
                skew: 0.0,
                dark: 0,
                light: 255,
                quiet: p.quiet.max(2),
                ..p
            }),
            1 => Place::anyhow().prop_map(|p| Place { dark: 0, light: 255, quiet: p.quiet.max(2), ..p }),
            1 => Place::anyhow(),
        ]
        .boxed()
    }
    fn anyhow() -> BoxedStrategy<Place> {
        let turn = prop_oneof![
            3 => (0i32..4).prop_map(|q| f64::from(q) * 90.0),
            2 => (-100i32..100, 0i32..4).prop_map(|(a, q)| f64::from(a) / 10.0 + 90.0 * f64::from(q)),
            1 => (0i32..3600).prop_map(|a| f64::from(a) / 10.0),
        ];
        let scale = prop_oneof![
            4 => (1u32..12).prop_map(f64::from),
            2 => (10u32..140).prop_map(|s| f64::from(s) / 10.0),
            1 => (12u32..40).prop_map(f64::from),
        ];
        let shades = prop_oneof![6 => Just((0u8, 255u8)), 1 => (0u8..100, 160u8..=255), 1 => any::<(u8, u8)>()];
        (
            prop_oneof![4 => 0i32..1000, 1 => -100i32..1100],
            prop_oneof![4 => 0i32..1000, 1 => -100i32..1100],
            scale,
            turn,
            prop_oneof![4 => Just(1.0), 1 => (70u32..140).prop_map(|s| f64::from(s) / 100.0)],
            prop_oneof![4 => Just(0.0), 1 => (-40i32..40).prop_map(|s| f64::from(s) / 100.0)],
            prop_oneof![5 => Just(false), 1 => Just(true)],
            shades,
            0u8..5,
        )
            .prop_map(
                |(x, y, scale, degrees, stretch, skew, mirrored, (dark, light), quiet)| Place {
                    x,
                    y,
                    scale,
                    degrees,
                    stretch,
                    skew,
                    mirrored,
                    dark,
                    light,
                    quiet,
                },
            )
            .boxed()
    }
    pub fn map(&self, n: f64, w: u32, h: u32) -> Map {
        let (s, c) = self.degrees.to_radians().sin_cos();
        let k = self.scale;
        let m = if self.mirrored { -1.0 } else { 1.0 };
        // columns: images of the unit steps right and down
        let (ax, ay) = (c * k * m, s * k * m);
        let (bx, by) = (
            (-s * self.stretch + c * self.skew) * k,
            (c * self.stretch + s * self.skew) * k,
        );
        let cx = f64::from(self.x) * f64::from(w) / 1000.0;
        let cy = f64::from(self.y) * f64::from(h) / 1000.0;
        Map::affine(
            ax,
            ay,
            bx,
            by,
            cx - (ax + bx) * n / 2.0,
            cy - (ay + by) * n / 2.0,
        )
    }
    pub fn draw(&self, img: &mut RgbaImage, sym: &Symbol) {
        let map = self.map(sym.size as f64, img.width(), img.height());
        draw_map(
            img,
            sym,
            &map,
            f64::from(self.quiet),
            1,
            [f64::from(self.dark); 3],
            [f64::from(self.light); 3],
        );
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Item {
    Patch(Patch),
    /// a lone finder pattern
    Finder(Place),
    /// the three finder patterns of a code, and its alignment pattern or not, without data
    Triple { version: usize, align: bool, place: Place },
    /// three finder patterns at the corners of something like a square, in pixels: left, top
    /// (thousandths of the picture), module size, distance, and where each is off
    Trio { x: u16, y: u16, scale: u8, step: u32, off: [i8; 6] },
    Code { code: Code, place: Place },
    /// a code with data modules inverted at random
    Scrambled { code: Code, seed: u64, place: Place },
    /// a code with a rectangle of it (in 256ths) painted over
    Covered { code: Code, x: u8, y: u8, w: u8, h: u8, dark: bool, place: Place },
    /// bars of alternating widths
    Bars { widths: Vec<u8>, vertical: bool, patch: (u8, u8, u8, u8) },
    /// light or dark frame of the picture
    Frame { width: u8, shade: u8 },
}

fn bare(size: usize) -> Symbol {
    Symbol {
        version: 1,
        level: Level::L,
        mask: 0,
        size,
        dark: vec![false; size * size],
    }
}

fn put_finder(s: &mut Symbol, x0: usize, y0: usize) {
    for y in 0..7 {
        for x in 0..7 {
            let r = (x as i32 - 3).abs().max((y as i32 - 3).abs());
            s.dark[(y0 + y) * s.size + x0 + x] = r != 2;
        }
    }
}

pub fn finder_symbol() -> Symbol {
    let mut s = bare(7);
    put_finder(&mut s, 0, 0);
    s
}

pub fn triple_symbol(version: usize, align: bool) -> Symbol {
    let n = version * 4 + 17;
    let mut s = bare(n);
    put_finder(&mut s, 0, 0);
    put_finder(&mut s, n - 7, 0);
    put_finder(&mut s, 0, n - 7);
    if align && version > 1 {
        for y in 0..5 {
            for x in 0..5 {
                let r = (x as i32 - 2).abs().max((y as i32 - 2).abs());
                s.dark[(n - 9 + y) * n + n - 9 + x] = r != 1;
            }
        }
    }
    s
}

pub fn scramble(sym: &mut Symbol, seed: u64) {
    let mut r = Noise(seed);
    for &(x, y) in &layout(sym.version).order {
        sym.dark[y * sym.size + x] ^= r.next() & 1 == 1;
    }
}

impl Item {
    pub fn paint(&self, img: &mut RgbaImage) {
        let (w, h) = img.dimensions();
        if w == 0 || h == 0 {
            return;
        }
        match self {
            Item::Patch(p) => p.paint(img),
            Item::Finder(p) => p.draw(img, &finder_symbol()),
            Item::Triple { version, align, place } => {
                place.draw(img, &triple_symbol(*version, *align));
            }
            Item::Trio { x, y, scale, step, off } => {
                let f = finder_symbol();
                let k = i64::from(*scale);
                let (x, y) = (i64::from(*x) * i64::from(w) / 1000, i64::from(*y) * i64::from(h) / 1000);
                let d = i64::from(*step);
                let at = [(0, 0), (d, 0), (0, d)];
                let at: Vec<(i64, i64)> = (0..3)
                    .map(|i| (x + at[i].0 + i64::from(off[2 * i]), y + at[i].1 + i64::from(off[2 * i + 1])))
                    .collect();
                for &(x, y) in &at {
                    fill_rect(img, x - k, y - k, 9 * k, 9 * k, WHITE);
                }
                for &(x, y) in &at {
                    for j in 0..7 {
                        for i in 0..7 {
                            let c = if f.get(i, j) { BLACK } else { WHITE };
                            fill_rect(img, x + i as i64 * k, y + j as i64 * k, k, k, c);
                        }
                    }
                }
            }
            Item::Code { code, place } => place.draw(img, &code.symbol().0),
            Item::Scrambled { code, seed, place } => {
                let mut s = code.symbol().0;
                scramble(&mut s, *seed);
                place.draw(img, &s);
            }
            Item::Covered { code, x, y, w, h, dark, place } => {
                let mut s = code.symbol().0;
                let n = s.size;
                let (x0, y0) = (*x as usize * n / 256, *y as usize * n / 256);
                let (cw, ch) = (*w as usize * n / 256 + 1, *h as usize * n / 256 + 1);
                for y in y0..(y0 + ch).min(n) {
                    for x in x0..(x0 + cw).min(n) {
                        s.dark[y * n + x] = *dark;
                    }
                }
                place.draw(img, &s);
            }
            Item::Bars { widths, vertical, patch } => {
                let p = Patch {
                    x: patch.0,
                    y: patch.1,
                    w: patch.2,
                    h: patch.3,
                    fill: Fill::Flat([255; 3]),
                };
                let (x0, y0, pw, ph) = p.area(w, h);
                p.paint(img);
                let end = if *vertical { pw } else { ph };
                let mut at = 0;
                for (i, d) in widths.iter().cycle().enumerate() {
                    if at >= end {
                        break;
                    }
                    let d = u32::from(*d).max(1).min(end - at);
                    let c = if i % 2 == 0 { BLACK } else { WHITE };
                    let (x, y, dx, dy) = if *vertical { (x0 + at, y0, d, ph) } else { (x0, y0 + at, pw, d) };
                    fill_rect(img, x.into(), y.into(), dx.into(), dy.into(), c);
                    at += d;
                }
            }
            Item::Frame { width, shade } => {
                let (k, c) = (i64::from(*width), Rgba([*shade, *shade, *shade, 255]));
                let (w, h) = (i64::from(w), i64::from(h));
                fill_rect(img, 0, 0, w, k, c);
                fill_rect(img, 0, h - k, w, k, c);
                fill_rect(img, 0, 0, k, h, c);
                fill_rect(img, w - k, 0, k, h, c);
            }
        }
    }
}

fn small_code() -> BoxedStrategy<Code> {
    (
        prop_oneof![8 => 1usize..4, 3 => 4usize..10, 1 => 10usize..16],
        prop::sample::select(LEVELS.to_vec()),
        0u8..8,
    )
        .prop_flat_map(|(v, l, m)| code_of(v, l, Some(m)))
        .boxed()
}

fn bars() -> BoxedStrategy<Item> {
    let widths = prop_oneof![
        2 => (1u8..9).prop_map(|m| vec![m, m, 3 * m, m, m, 2 * m]),
        1 => (1u8..9).prop_map(|m| vec![m, m, 3 * m, m, m, 1]),
        2 => prop::collection::vec(1u8..20, 1..12),
    ];
    (widths, any::<bool>(), any::<(u8, u8, u8, u8)>())
        .prop_map(|(widths, vertical, patch)| Item::Bars { widths, vertical, patch })
        .boxed()
}

fn triple() -> BoxedStrategy<Item> {
    (prop_oneof![8 => 1usize..8, 1 => 8usize..=40], any::<bool>(), Place::strategy())
        .prop_map(|(version, align, place)| Item::Triple { version, align, place })
        .boxed()
}

fn trio() -> BoxedStrategy<Item> {
    let off = || prop_oneof![4 => Just(0i8), 1 => -3i8..=3, 1 => -20i8..=20];
    (
        0u16..900,
        0u16..900,
        1u8..12,
        prop_oneof![2 => 70u32..110, 1 => 70u32..400],
        [off(), off(), off(), off(), off(), off()],
    )
        .prop_map(|(x, y, scale, step, off)| Item::Trio {
            x,
            y,
            scale,
            step: step * u32::from(scale) / 10,
            off,
        })
        .boxed()
}

fn scrambled() -> BoxedStrategy<Item> {
    (small_code(), any::<u64>(), Place::strategy())
        .prop_map(|(code, seed, place)| Item::Scrambled { code, seed, place })
        .boxed()
}

fn any_item() -> BoxedStrategy<Item> {
    prop_oneof![
        3 => Patch::strategy().prop_map(Item::Patch),
        3 => Place::strategy().prop_map(Item::Finder),
        3 => triple(),
        1 => trio(),
        4 => (small_code(), Place::strategy()).prop_map(|(code, place)| Item::Code { code, place }),
        1 => scrambled(),
        2 => (small_code(), any::<(u8, u8, u8, u8, bool)>(), Place::strategy()).prop_map(
            |(code, (x, y, w, h, dark), place)| Item::Covered { code, x, y, w, h, dark, place }
        ),
        1 => bars(),
        1 => (1u8..12, any::<u8>()).prop_map(|(width, shade)| Item::Frame { width, shade }),
    ]
    .boxed()
}

/// A picture of anything.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Scene {
    pub w: u32,
    pub h: u32,
    pub fill: Fill,
    pub items: Vec<Item>,
}

impl Scene {
    pub fn picture(&self) -> RgbaImage {
        let mut img = RgbaImage::new(self.w, self.h);
        self.fill.paint(&mut img, 0, 0, self.w, self.h);
        for i in &self.items {
            i.paint(&mut img);
        }
        img
    }
    /// One in which something is probably located.
    pub fn likely(max: u32) -> BoxedStrategy<Scene> {
        let code = || {
            prop_oneof![
                2 => triple(),
                1 => trio(),
                4 => (small_code(), Place::strategy()).prop_map(|(code, place)| Item::Code { code, place }),
                1 => scrambled(),
            ]
        };
        let sides = (110u32..=max, 110u32..=max);
        (sides, prop::collection::vec(any_item(), 0..2), code(), prop_oneof![3 => Just(None), 1 => code().prop_map(Some)])
            .prop_map(|((w, h), mut items, a, b)| {
                items.push(a);
                items.extend(b);
                Scene { w, h, fill: Fill::Flat([255; 3]), items }
            })
            .boxed()
    }
    pub fn strategy(max: u32) -> BoxedStrategy<Scene> {
        let side = move || prop_oneof![1 => 0u32..8, 1 => 8u32..40, 3 => 40u32..=140, 4 => 80u32..=max];
        let fill = prop_oneof![3 => Just(Fill::Flat([255; 3])), 2 => Fill::strategy()];
        (side(), side(), fill, prop::collection::vec(any_item(), 0..5))
            .prop_map(|(w, h, fill, items)| Scene { w, h, fill, items })
            .boxed()
    }
}

// ---------------------------------------------------------------- C07

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C07Case {
    pub scene: Scene,
    pub blocks: (u32, u32),
}

pub struct C07;

impl Prop for C07 {
    type Case = C07Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Pictures of 0 to 400 (thorough 700) pixels a side (one in 1024: up to 3000, or strips of up to 70000) showing up to four things among noise, finder patterns, trios of them at any distance, triples of finder patterns with and without an alignment pattern, codes (turned, stretched, skewed, mirrored, covered, scrambled, in any shades, partly outside of the picture), bars of all widths and frames; block sizes of the default or anything. The default decoders return; both return the same number of results with the same texts and errors. Non-trivial: something was located."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(50_000, 1_000_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C07Case> {
        let blocks = if idx % 4 != 0 { Just((5u32, 7u32)).boxed() } else { (1u32..30, 1u32..20).boxed() };
        let max = t.pick(400, 700);
        if idx % 1024 == 1023 {
            // giant pictures and strips
            let shape = prop_oneof![
                3 => (30_000u32..70_000, 1u32..40, any::<bool>())
                    .prop_map(|(w, h, turn)| if turn { (h, w) } else { (w, h) }),
                1 => (1500u32..3000, 1500u32..3000),
            ];
            return (shape, Scene::strategy(max), blocks)
                .prop_map(|((w, h), scene, blocks)| C07Case { scene: Scene { w, h, ..scene }, blocks })
                .boxed();
        }
        (if idx % 5 < 3 { Scene::likely(max) } else { Scene::strategy(max) }, blocks)
            .prop_map(|(scene, blocks)| C07Case { scene, blocks })
            .boxed()
    }
    fn check(&self, c: &C07Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.scene.picture();
        save_debug(&img);
        ctx.comparisons += 2;
        let (info, plain): (Results, _) = if c.blocks == (5, 7) {
            (decode_info(&img), decode_plain(&img))
        } else {
            let (bs, mean) = c.blocks;
            let mut a = bardecoder::default_builder_with_info::<RgbaImage>();
            a.prepare(Box::new(BlockedMean::new(bs, mean)));
            let mut b = bardecoder::default_builder::<RgbaImage>();
            b.prepare(Box::new(BlockedMean::new(bs, mean)));
            (flat(a.build().decode(&img)), flat(b.build().decode(&img)))
        };
        ctx.label(match info.len() {
            0 => "no results",
            1 => "1 result",
            2..=5 => "2-5 results",
            _ => "more than 5 results",
        });
        if c.scene.w.min(c.scene.h) < 8 {
            ctx.label("tiny picture");
        }
        if c.scene.w.max(c.scene.h) >= 1500 {
            ctx.label("giant picture");
        }
        for r in &info {
            ctx.label(match r {
                Ok(_) => "some text".to_string(),
                Err(e) => {
                    let e: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                    format!("some error: {e}")
                }
            });
        }
        if !info.is_empty() {
            ctx.nontrivial();
        }
        let texts: Vec<Result<String, String>> =
            info.into_iter().map(|r| r.map(|r| r.0)).collect();
        if texts != plain {
            return Err(format!("with information {texts:?}, without {plain:?}"));
        }
        Ok(())
    }
}

/// Pictures (100 pixels square) of anything but whole codes, with 1 to `most` - 1 things in them.
pub fn broken(most: usize) -> BoxedStrategy<Scene> {
    let place = Place::strategy();
    let mirrored = (small_code(), place.clone()).prop_map(|(code, place)| Item::Code {
        code,
        place: Place { mirrored: true, ..place },
    });
    let scrambled = (small_code(), any::<u64>(), place.clone())
        .prop_map(|(code, seed, place)| Item::Scrambled { code, seed, place });
    // one of the finder patterns painted over
    let cut = (small_code(), 0usize..3, any::<bool>(), place).prop_map(|(code, k, dark, place)| {
        let n = code.size();
        let z = |m: i64| ((m * 256 + n - 1) / n) as u8;
        let (x, y) = [(0, 0), (z(n - 8), 0), (0, z(n - 8))][k];
        Item::Covered { code, x, y, w: z(8), h: z(8), dark, place }
    });
    let item = prop_oneof![
        1 => Patch::strategy().prop_map(Item::Patch),
        1 => Place::strategy().prop_map(Item::Finder),
        2 => triple(),
        1 => trio(),
        1 => bars(),
        2 => mirrored,
        4 => scrambled,
        2 => cut,
    ];
    let fill = prop_oneof![3 => Just(Fill::Flat([255; 3])), 1 => Fill::strategy()];
    (fill, prop::collection::vec(item, 1..most))
        .prop_map(|(fill, items)| Scene { w: 100, h: 100, fill, items })
        .boxed()
}

// ---------------------------------------------------------------- C20

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C20Case {
    pub scene: Scene,
    /// nothing in it can pass for three finder patterns
    pub plain: bool,
}

pub struct C20;

impl Prop for C20 {
    type Case = C20Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Pictures as in C07 but without any complete valid code: finder patterns and triples of them, mirrored codes, codes with random data modules inverted, codes with one finder pattern painted over, noise, bars: neither default decoder returns a text. Every third picture is plain (flat, graded, checkered, equal bars, at most two finder patterns on white): no result at all. Non-trivial: something was located, or the picture is plain and not flat."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(60_000, 1_500_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C20Case> {
        let max = t.pick(400, 700);
        let side = move || prop_oneof![1 => 1u32..40, 6 => 60u32..=max];
        if idx % 3 == 0 {
            let fill = prop_oneof![
                1 => any::<[u8; 3]>().prop_map(Fill::Flat),
                2 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(
                    |(from, to, vertical)| Fill::Ramp { from, to, vertical, noise: 0, seed: 0 }
                ),
                2 => (any::<u8>(), any::<u8>(), 1u32..30)
                    .prop_map(|(a, b, cell)| Fill::Checker { a, b, cell }),
            ];
            let even = (any::<bool>(), 1u8..30).prop_map(|(vertical, w)| {
                vec![Item::Bars { widths: vec![w], vertical, patch: (0, 0, 255, 255) }]
            });
            let lone = Place::strategy().prop_map(|mut p| {
                (p.dark, p.light) = (0, 255);
                p
            });
            return prop_oneof![
                2 => (side(), side(), fill).prop_map(|(w, h, fill)| Scene { w, h, fill, items: vec![] }),
                2 => (side(), side(), even).prop_map(|(w, h, items)| Scene {
                    w,
                    h,
                    fill: Fill::Flat([255; 3]),
                    items
                }),
                3 => (side(), side(), prop::collection::vec(lone, 0..3)).prop_map(|(w, h, p)| Scene {
                    w,
                    h,
                    fill: Fill::Flat([255; 3]),
                    items: p.into_iter().map(Item::Finder).collect()
                }),
            ]
            .prop_map(|scene| C20Case { scene, plain: true })
            .boxed();
        }
        (side(), side(), broken(4))
            .prop_map(|(w, h, scene)| C20Case { scene: Scene { w, h, ..scene }, plain: false })
            .boxed()
    }
    fn check(&self, c: &C20Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.scene.picture();
        save_debug(&img);
        ctx.comparisons += 2;
        let got = decode_info(&img);
        if let Some(Ok((t, i))) = got.iter().find(|r| r.is_ok()) {
            return Err(format!("text {t:?} ({i:?}) from a picture without a valid code"));
        }
        if let Some(Ok(t)) = decode_plain(&img).iter().find(|r| r.is_ok()) {
            return Err(format!("text {t:?} (without information only) from a picture without a valid code"));
        }
        ctx.label(if c.plain { "plain picture" } else { "picture of broken codes" });
        if c.plain {
            if !matches!(c.scene.fill, Fill::Flat(_)) || !c.scene.items.is_empty() {
                ctx.nontrivial();
            }
            if !got.is_empty() {
                return Err(format!("{} results from a picture without finder patterns: {:?}", got.len(), got[0]));
            }
        } else if !got.is_empty() {
            ctx.nontrivial();
            ctx.label("located something");
        }
        Ok(())
    }
}
