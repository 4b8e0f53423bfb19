//! C23 and C24: the detector on any binary picture, the extractor at any location.

use super::image::*;
use super::scene::*;
use crate::run::*;
use bardecoder::decode::{Decode, QRDecoder};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::qr::QRLocation;
use bardecoder::util::Point;
use image::{GrayImage, Luma, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn bw(img: &RgbaImage, threshold: u8) -> GrayImage {
    GrayImage::from_fn(img.width(), img.height(), |x, y| {
        Luma([if img.get_pixel(x, y).0[0] < threshold { 0 } else { 255 }])
    })
}

fn len(p: &Point, q: &Point) -> f64 {
    (p.x - q.x).hypot(p.y - q.y)
}

// ---------------------------------------------------------------- C23

/// Finder patterns without anything else: left, top, module size each.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Finders {
    pub w: u32,
    pub h: u32,
    pub at: Vec<(u32, u32, u32)>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum C23Case {
    Scene { scene: Scene, threshold: u8 },
    /// finder patterns with borders of their rings moved, and lines through the picture
    Rough { w: u32, h: u32, at: Vec<RoughFinder>, lines: Vec<(bool, u32, u32, bool)>, light: bool },
    Finders(Finders),
}

/// Left, top, module size; the borders of the runs in thousandths of a module; a side left out.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RoughFinder {
    pub x: i32,
    pub y: i32,
    pub k: u32,
    pub bx: [i32; 6],
    pub by: [i32; 6],
    pub open: u8,
}

impl RoughFinder {
    fn draw(&self, img: &mut GrayImage) {
        let k = self.k as i32;
        let edge = |b: &[i32; 6], i: usize| [0, 1, 2, 5, 6, 7][i] * k + (b[i] * k).div_euclid(1000);
        let (w, h) = (img.width() as i32, img.height() as i32);
        let ring = |b: &[i32; 6], t: i32| (0..6).filter(|&i| edge(b, i) <= t).count();
        for y in -2 * k..9 * k {
            for x in -2 * k..9 * k {
                let (px, py) = (self.x + x, self.y + y);
                if px < 0 || py < 0 || px >= w || py >= h {
                    continue;
                }
                // 1 to 5 within the pattern
                let (i, j) = (ring(&self.bx, x), ring(&self.by, y));
                let (i, j) = (i as i32 - 3, j as i32 - 3);
                let r = i.abs().max(j.abs());
                let side = match self.open {
                    1 => i == -2,
                    2 => i == 2,
                    3 => j == -2,
                    4 => j == 2,
                    5 => i == -1 && j.abs() < 2,
                    6 => j == 1 && i.abs() < 2,
                    _ => false,
                };
                let dark = r < 3 && (r != 1) != side;
                img.put_pixel(px as u32, py as u32, Luma([if dark { 0 } else { 255 }]));
            }
        }
    }
}

impl Finders {
    /// Those that keep two modules away from the borders and the ones before.
    fn kept(&self) -> Vec<(u32, u32, u32)> {
        let mut out: Vec<(u32, u32, u32)> = vec![];
        for &(x, y, k) in &self.at {
            let g = 2 * k;
            if x < g || y < g || x + 9 * k > self.w || y + 9 * k > self.h {
                continue;
            }
            let apart = out.iter().all(|&(u, v, l)| {
                let g = 2 * k.max(l);
                x + 7 * k + g <= u || u + 7 * l + g <= x || y + 7 * k + g <= v || v + 7 * l + g <= y
            });
            if apart {
                out.push((x, y, k));
            }
        }
        out
    }
    fn picture(&self) -> GrayImage {
        let mut img = GrayImage::from_pixel(self.w, self.h, Luma([255]));
        for (x0, y0, k) in self.kept() {
            for y in 0..7 * k {
                for x in 0..7 * k {
                    let r = (x / k).abs_diff(3).max((y / k).abs_diff(3));
                    if r != 2 {
                        img.put_pixel(x0 + x, y0 + y, Luma([0]));
                    }
                }
            }
        }
        img
    }
}

impl C23Case {
    fn picture(&self) -> GrayImage {
        match self {
            C23Case::Scene { scene, threshold } => bw(&scene.picture(), *threshold),
            C23Case::Finders(f) => f.picture(),
            C23Case::Rough { w, h, at, lines, light } => {
                let mut img = GrayImage::from_pixel(*w, *h, Luma([255]));
                for f in at {
                    f.draw(&mut img);
                }
                for &(vertical, p, n, dark) in lines {
                    for t in p..(p + n).min(if vertical { *w } else { *h }) {
                        for u in 0..if vertical { *h } else { *w } {
                            let (x, y) = if vertical { (t, u) } else { (u, t) };
                            img.put_pixel(x, y, Luma([if dark { 0 } else { 255 }]));
                        }
                    }
                }
                if *light {
                    for p in img.pixels_mut() {
                        p.0[0] = 255 - p.0[0];
                    }
                }
                img
            }
        }
    }
}

enum Row {
    Finder,
    Not,
    /// runs so much shorter than their neighbours that they may be ignored
    Noisy,
}

/// Whether there are runs like those of a finder pattern around `at`; the outer ones may belong
/// to something larger.
fn finder_runs(line: &[u8], at: f64, m: f64) -> Row {
    let mut runs: Vec<(usize, usize)> = vec![];
    for (i, v) in line.iter().enumerate() {
        match runs.last_mut() {
            Some(r) if line[r.0] == *v => r.1 = i + 1,
            _ => runs.push((i, i + 1)),
        }
    }
    let near: Vec<f64> = runs
        .iter()
        .filter(|r| r.1 as f64 > at - 7.0 * m && (r.0 as f64) < at + 7.0 * m)
        .map(|r| (r.1 - r.0) as f64)
        .collect();
    let ok = |n: usize, least: f64, most: f64| {
        let n = n as f64;
        n >= least * m - 1.0 && n <= most * m + 1.0
    };
    for i in 1..runs.len().saturating_sub(1) {
        let (a, b) = runs[i];
        if at < a as f64 - 1.5 || at > b as f64 + 0.5 || !ok(b - a, 1.8, 4.7) {
            continue;
        }
        let inner = [i - 1, i + 1];
        if i < 2 || i + 2 >= runs.len() || inner.iter().any(|&j| !ok(runs[j].1 - runs[j].0, 0.25, 2.1)) {
            continue;
        }
        if [i - 2, i + 2].iter().all(|&j| ok(runs[j].1 - runs[j].0, 0.25, f64::MAX)) {
            return Row::Finder;
        }
    }
    if near.windows(2).any(|p| p[1] < p[0] / 5.0 || p[0] < p[1] / 5.0) {
        return Row::Noisy;
    }
    Row::Not
}

/// How a triple of points (the first at the right angle) would do as a code: surely, perhaps,
/// surely not.
#[derive(PartialEq, Clone, Copy, Debug)]
enum Fit {
    Yes,
    Perhaps,
    No,
}

fn fit(p: [(f64, f64, f64); 3]) -> Fit {
    let sizes = [p[0].2, p[1].2, p[2].2];
    let (lo, hi) = sizes.iter().fold((f64::MAX, 0.0f64), |a, &s| (a.0.min(s), a.1.max(s)));
    let (ax, ay) = (p[1].0 - p[0].0, p[1].1 - p[0].1);
    let (bx, by) = (p[2].0 - p[0].0, p[2].1 - p[0].1);
    let (a, b) = (ax.hypot(ay), bx.hypot(by));
    let legs = (a - b).abs() / a.max(b);
    let sin = (ax * by - ay * bx).abs() / a / b;
    // in modules; a code is 21 or more wide
    let short = a.min(b) / hi;
    let long = a.max(b) / lo;
    if hi / lo > 1.3 || legs > 0.22 || sin < 0.92 || long < 10.5 {
        Fit::No
    } else if hi == lo && legs < 0.12 && sin > 0.965 && short > 13.0 {
        Fit::Yes
    } else {
        Fit::Perhaps
    }
}

pub struct C23;

impl C23 {
    fn any(img: &GrayImage, locs: &[Location], ctx: &mut Ctx) -> Result<(), String> {
        let (w, h) = img.dimensions();
        let mut seen: Vec<[u64; 6]> = vec![];
        for Location::QR(q) in locs {
            let pts = [&q.top_left, &q.top_right, &q.bottom_left];
            for p in pts {
                if !(p.x >= 0.0 && p.y >= 0.0 && p.x <= f64::from(w) && p.y <= f64::from(h)) {
                    return Err(format!("a point outside of the picture: {q:?}"));
                }
            }
            let m = q.module_size;
            if !(m >= 0.9 && m * 7.0 <= f64::from(w.max(h)) * 1.2) {
                return Err(format!("a module size out of place: {q:?}"));
            }
            let (ax, ay) = (q.top_right.x - q.top_left.x, q.top_right.y - q.top_left.y);
            let (bx, by) = (q.bottom_left.x - q.top_left.x, q.bottom_left.y - q.top_left.y);
            let (a, b) = (ax.hypot(ay), bx.hypot(by));
            let cross = ax * by - ay * bx;
            if cross <= 0.0 {
                return Err(format!("a mirrored location: {q:?}"));
            }
            if (a - b).abs() / a.max(b) > 0.22 || cross / a / b < 0.92 {
                return Err(format!("a location that is not square: {q:?}"));
            }
            // the version whose distance is closest to one of the two
            let v = |d: f64| ((d / m - 10.0) / 4.0).round();
            let got = f64::from(q.version);
            if q.version < 1 || got < v(a.min(b)) || got > v(a.max(b)) {
                return Err(format!("the version is not that of the distances {a} and {b}: {q:?}"));
            }
            for p in pts {
                let (x, y) = (p.x.round().min(f64::from(w - 1)), p.y.round().min(f64::from(h - 1)));
                let mut row = Row::Not;
                for dy in [0.0, -1.0, 1.0] {
                    let y = y + dy;
                    if y < 0.0 || y >= f64::from(h) {
                        continue;
                    }
                    let line: Vec<u8> = (0..w).map(|x| img.get_pixel(x, y as u32).0[0]).collect();
                    match finder_runs(&line, p.x, m) {
                        Row::Not => {}
                        r => {
                            row = r;
                            break;
                        }
                    }
                }
                match row {
                    Row::Finder => {}
                    Row::Noisy => {
                        ctx.label("location among noise");
                        continue;
                    }
                    Row::Not => return Err(format!("no finder pattern in the rows at {p:?}: {q:?}")),
                }
                let mut column = Row::Not;
                let reach = (1.5 * m).ceil() as i64 + 1;
                for dx in 0..=2 * reach {
                    let dx = if dx % 2 == 0 { dx / 2 } else { -(dx + 1) / 2 };
                    let x = x as i64 + dx;
                    if x < 0 || x >= i64::from(w) {
                        continue;
                    }
                    let line: Vec<u8> = (0..h).map(|y| img.get_pixel(x as u32, y).0[0]).collect();
                    match finder_runs(&line, p.y, m) {
                        Row::Not => {}
                        r => {
                            column = r;
                            break;
                        }
                    }
                }
                if let Row::Not = column {
                    return Err(format!("no finder pattern in the columns at {p:?}: {q:?}"));
                }
            }
            let mut key = pts.map(|p| [p.x.to_bits(), p.y.to_bits()]);
            key.sort_unstable();
            let key = [key[0][0], key[0][1], key[1][0], key[1][1], key[2][0], key[2][1]];
            if seen.contains(&key) {
                return Err(format!("one location twice: {q:?}"));
            }
            seen.push(key);
        }
        Ok(())
    }

    fn clean(f: &Finders, locs: &[Location], ctx: &mut Ctx) -> Result<(), String> {
        let c: Vec<(f64, f64, f64)> = f
            .kept()
            .iter()
            .map(|&(x, y, k)| (f64::from(x) + 3.5 * f64::from(k), f64::from(y) + 3.5 * f64::from(k), f64::from(k)))
            .collect();
        ctx.label(format!("{} finder patterns", c.len().min(9)));
        let mut left: Vec<&QRLocation> = locs.iter().map(|Location::QR(q)| q).collect();
        let mut due = 0;
        for i in 0..c.len() {
            for j in i + 1..c.len() {
                for k in j + 1..c.len() {
                    let orders = [[i, j, k], [j, i, k], [k, i, j]];
                    let fits = orders.map(|o| fit(o.map(|n| c[n])));
                    let near = |p: &Point, n: usize| (p.x - c[n].0).hypot(p.y - c[n].1) <= 1.0 + 0.5 * c[n].2;
                    let at = left.iter().position(|q| {
                        let p = [&q.top_left, &q.top_right, &q.bottom_left];
                        [i, j, k].iter().all(|&n| p.iter().any(|p| near(p, n)))
                    });
                    let what = || format!("the finder patterns at {:?}, {:?}, {:?}", c[i], c[j], c[k]);
                    if fits.iter().all(|&f| f == Fit::No) {
                        if let Some(at) = at {
                            return Err(format!("{} are no code, but reported as {:?}", what(), left[at]));
                        }
                        continue;
                    }
                    let Some(at) = at else {
                        if fits.contains(&Fit::Yes) {
                            return Err(format!("{} are not reported", what()));
                        }
                        continue;
                    };
                    let q = left.swap_remove(at);
                    let Some(o) = (0..3).find(|&o| fits[o] == Fit::Yes) else {
                        continue;
                    };
                    due += 1;
                    let o = orders[o];
                    if !near(&q.top_left, o[0]) {
                        return Err(format!("{} are reported with another corner: {q:?}", what()));
                    }
                    let m = c[i].2;
                    if (q.module_size / m - 1.0).abs() > 0.04 {
                        return Err(format!("{}: module size {}", what(), q.module_size));
                    }
                    let v = [o[1], o[2]].map(|n| ((c[n].0 - c[o[0]].0).hypot(c[n].1 - c[o[0]].1) / m - 10.0) / 4.0);
                    let (lo, hi) = (v[0].min(v[1]), v[0].max(v[1]));
                    let got = f64::from(q.version);
                    // half a pixel off at each end
                    let slack = 0.5 / m;
                    if got < (lo - slack).round() || got > (hi + slack).round() {
                        return Err(format!("{} are {lo} to {hi} versions apart, reported as {q:?}", what()));
                    }
                }
            }
        }
        if !left.is_empty() {
            return Err(format!("further locations, of nothing: {:?}", left[0]));
        }
        ctx.label(format!("{} locations due", due.min(6)));
        if due > 0 {
            ctx.nontrivial();
        }
        Ok(())
    }
}

/// Corners of something like a square within the picture: left, top, module size.
fn square(max: u32) -> BoxedStrategy<Vec<(i32, i32, u32)>> {
    let k = || prop_oneof![6 => Just(0u32), 1 => 0u32..2];
    let off = || prop_oneof![4 => Just(0i32), 2 => -2i32..=2, 1 => -9i32..=9];
    (
        2u32..9,
        any::<(u16, u16)>(),
        prop_oneof![2 => 140u32..220, 1 => 100u32..400],
        (prop::collection::vec((off(), off(), k()), 4), 3usize..=4, 0usize..4),
        prop_oneof![4 => Just((0i32, 0i32)), 1 => (-250i32..250, -50i32..50), 1 => (-200i32..200, -250i32..250)],
    )
        .prop_map(move |(k, (x, y), d, (corners, n, first), (turn, grow))| {
            let d = (d * k / 10).min(max - 11 * k) as i32;
            let room = |v: u16| i32::from(v) * (max as i32 - d - 11 * k as i32) / 65536 + 2 * k as i32;
            let (x, y) = (room(x), room(y));
            (0..n)
                .map(|i| {
                    let (dx, dy, dk) = corners[i];
                    let (u, v) = [(0, 0), (d, 0), (d, d), (0, d)][(i + first) % 4];
                    let v = v + v * grow / 1000;
                    let (u, v) = (u - v * turn / 1000, v + u * turn / 1000);
                    (x + u + dx, y + v + dy, k + dk)
                })
                .collect::<Vec<_>>()
        })
        .boxed()
}

fn finders(max: u32) -> BoxedStrategy<Finders> {
    (
        (0u32..60, 0u32..60),
        prop::collection::vec(square(max), 1..3),
        prop::collection::vec((0..max as i32, 0..max as i32, 2u32..9), 0..4),
    )
        .prop_map(move |((w, h), squares, more)| {
            let mut at = squares.concat();
            at.extend(more);
            let at = at.into_iter().map(|(x, y, k)| (x.max(0) as u32, y.max(0) as u32, k)).collect();
            Finders { w: max + w, h: max + h, at }
        })
        .boxed()
}

fn rough(max: u32) -> BoxedStrategy<C23Case> {
    let edges = || {
        prop_oneof![
            2 => Just([0i32; 6]),
            3 => prop::array::uniform6(-500i32..500),
            1 => prop::array::uniform6(-1000i32..1000),
        ]
    };
    let ways = prop_oneof![
        // all three alike, or each of its own
        2 => (edges(), edges()).prop_map(|e| vec![e; 4]),
        1 => prop::collection::vec((edges(), edges()), 4),
    ];
    let open = prop_oneof![5 => Just([0u8; 4]), 1 => prop::array::uniform4(0u8..7)];
    let line = (any::<bool>(), 0..max, 1u32..12, any::<bool>());
    (
        square(max),
        ways,
        open,
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(line, 1..3)],
        prop_oneof![3 => Just(false), 1 => Just(true)],
        (0u32..40, 0u32..40),
    )
        .prop_map(move |(sq, ways, open, lines, light, (w, h))| C23Case::Rough {
            w: max - 20 + w,
            h: max - 20 + h,
            at: sq
                .into_iter()
                .enumerate()
                .map(|(i, (x, y, k))| RoughFinder { x, y, k, bx: ways[i].0, by: ways[i].1, open: open[i] })
                .collect(),
            lines,
            light,
        })
        .boxed()
}

impl Prop for C23 {
    type Case = C23Case;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Binary pictures given to the detector: scenes as in C07 (thresholded anywhere), three or four finder patterns at the corners of something like a square with the borders of their runs moved by up to a module, sides left out, inverted, or lines across, and 3 to 11 finder patterns (upright, 2 to 9 pixels per module, three of them most often at the corners of something like a square) on white. Every location lies in the picture, is not mirrored, nearly square, of the version its distances give, with runs like a finder pattern's in a row and a column of each point, and comes once. On the pictures of finder patterns the locations are those of the triples: all that are clearly a code's (like module sizes, legs within 12 percent, angle within 15 degrees of a right one), none that are clearly not, each once, with its corner, module size and version. Non-trivial: something was located, and in the last kind it was due."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(60_000, 1_500_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C23Case> {
        let max = t.pick(400, 700);
        match idx % 4 {
            0 => (
                prop_oneof![3 => Scene::likely(max), 1 => Scene::strategy(max)],
                prop_oneof![1 => Just(128u8), 1 => 1u8..=255],
            )
                .prop_map(|(scene, threshold)| C23Case::Scene { scene, threshold })
                .boxed(),
            1 => rough(max),
            _ => finders(max).prop_map(C23Case::Finders).boxed(),
        }
    }
    fn check(&self, c: &C23Case, ctx: &mut Ctx) -> Result<(), String> {
        let img = c.picture();
        if img.width() == 0 || img.height() == 0 {
            return Ok(());
        }
        save_debug(&image::DynamicImage::ImageLuma8(img.clone()).to_rgba8());
        ctx.comparisons += 1;
        let locs = LineScan::new().detect(&img);
        C23::any(&img, &locs, ctx)?;
        match c {
            C23Case::Finders(f) => C23::clean(f, &locs, ctx),
            _ => {
                ctx.label(match (c, locs.len()) {
                    (C23Case::Scene { .. }, 0) => "scene without locations",
                    (C23Case::Scene { .. }, _) => "scene with locations",
                    (_, 0) => "rough finder patterns without locations",
                    _ => "rough finder patterns with locations",
                });
                if !locs.is_empty() {
                    ctx.nontrivial();
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C24

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C24Case {
    pub scene: Scene,
    pub threshold: u8,
    pub version: u32,
    /// top left, top right, bottom left
    pub at: [(f64, f64); 3],
    pub module_size: f64,
    /// rather a location the detector reports, with each point moved by so many modules
    pub detected: Option<(u8, [(f64, f64); 3])>,
    /// an alignment pattern painted where the location has it
    pub planted: Option<Planted>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Planted {
    /// off by so many modules
    pub off: (f64, f64),
    /// which of its 25 modules are inverted
    pub flips: Vec<u8>,
    /// what is around it for six modules
    pub around: Option<bool>,
    /// the size of its modules, in modules
    #[serde(default = "one")]
    pub size: f64,
}

fn one() -> f64 {
    1.0
}

impl Planted {
    /// Paint it onto the picture; the place of its centre.
    fn paint(&self, img: &mut GrayImage, p: &[Point; 3], version: u32) -> (f64, f64) {
        let n = f64::from(version * 4 + 17);
        let (a, b) = (p[1] - p[0], p[2] - p[0]);
        let (dx, dy) = ((a.dx / (n - 7.0), a.dy / (n - 7.0)), (b.dx / (n - 7.0), b.dy / (n - 7.0)));
        let (u, v) = (n - 10.0 + self.off.0, n - 10.0 + self.off.1);
        let (cx, cy) = (p[0].x + u * dx.0 + v * dy.0, p[0].y + u * dx.1 + v * dy.1);
        let det = dx.0 * dy.1 - dx.1 * dy.0;
        if det.abs() > 0.5 && cx.abs().max(cy.abs()) < 1e5 {
            for (x, y, q) in img.enumerate_pixels_mut() {
                let (ex, ey) = (f64::from(x) - cx, f64::from(y) - cy);
                let u = (ex * dy.1 - ey * dy.0) / det / self.size;
                let v = (ey * dx.0 - ex * dx.1) / det / self.size;
                let far = u.abs().max(v.abs());
                if far < 2.5 {
                    let (i, j) = (u.round() as i32, v.round() as i32);
                    let dark = (i.abs().max(j.abs()) != 1) ^ self.flips.contains(&((i + 2 + 5 * (j + 2)) as u8));
                    q.0[0] = if dark { 0 } else { 255 };
                } else if let (true, Some(dark)) = (far < 8.5, self.around) {
                    q.0[0] = if dark { 0 } else { 255 };
                }
            }
        }
        (cx, cy)
    }
}

pub struct C24;

impl Prop for C24 {
    type Case = C24Case;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Scenes as in C07, binary, and locations anywhere: inside and outside of the picture, far away, degenerate, or those of the detector with their points moved and any version, given to the extractor; for half of the larger versions an alignment pattern, whole or with some of its modules inverted, is painted where the location has it or up to 1.4 modules away. It returns; data is of the version asked for, square, of that side and binary; for version 1 every module whose place (rows and columns divided into equal parts) is inside of the picture has the colour of the pixel there; with a whole alignment pattern in light or dark surroundings data is extracted and every module, rows growing steadily towards that pattern, has the colour of the pixels around its place; decoding it returns. Non-trivial: data was extracted with both colours in it."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(60_000, 1_500_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C24Case> {
        let max = t.pick(400, 700);
        let m = f64::from(max);
        let coordinate = move || {
            prop_oneof![
                6 => 0.0..m,
                2 => (0i32..max as i32 * 2).prop_map(|v| f64::from(v) / 2.0),
                1 => -m..2.0 * m,
                1 => prop_oneof![Just(0.0), Just(-1.0), -1e12f64..1e12, Just(f64::from(u32::MAX)), Just(f64::from(i32::MIN))],
            ]
        };
        let free = [
            (coordinate(), coordinate()),
            (coordinate(), coordinate()),
            (coordinate(), coordinate()),
        ]
        .boxed();
        // a square turned by anything
        let square = (0.0..m, 0.0..m, 0.0..m, 0.0f64..7.0, any::<bool>())
            .prop_map(|(x, y, d, a, mirrored)| {
                let (s, c) = a.sin_cos();
                let p = [(x, y), (x + d * c, y + d * s), (x - d * s, y + d * c)];
                if mirrored {
                    [p[0], p[2], p[1]]
                } else {
                    p
                }
            })
            .boxed();
        let at = if idx % 3 == 0 { free } else { square };
        let version = match idx % 4 {
            0 | 1 => Just(1u32).boxed(),
            2 => (2u32..8).boxed(),
            _ => (1u32..=40).boxed(),
        };
        let off = || prop_oneof![3 => Just(0.0), 2 => -0.5f64..0.5, 1 => -4.0f64..4.0];
        let moved = [(off(), off()), (off(), off()), (off(), off())];
        let detected = if idx % 2 == 0 {
            Just(None).boxed()
        } else {
            (any::<u8>(), moved).prop_map(Some).boxed()
        };
        let off = || prop_oneof![2 => Just(0.0), 3 => -1.4f64..1.4];
        let planted = if idx % 4 < 2 {
            Just(None).boxed()
        } else {
            (
                (off(), off()),
                prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(0u8..25, 0..4)],
                prop_oneof![2 => any::<bool>().prop_map(Some), 1 => Just(None)],
                prop_oneof![2 => Just(1.0), 1 => 0.8f64..1.3],
            )
                .prop_map(|(off, flips, around, size)| Some(Planted { off, flips, around, size }))
                .boxed()
        };
        (
            prop_oneof![3 => Scene::likely(max), 1 => Scene::strategy(max)],
            prop_oneof![1 => Just(128u8), 1 => 1u8..=255],
            version,
            at,
            prop_oneof![4 => 0.5f64..20.0, 1 => -1.0f64..1e6],
            detected,
            planted,
            // around an alignment pattern inside of the picture
            if idx % 4 == 2 {
                (0.0f64..1.0, 0.0f64..1.0, 4.0f64..12.0, 0.0f64..7.0, any::<bool>()).prop_map(Some).boxed()
            } else {
                Just(None).boxed()
            },
        )
            .prop_map(|(scene, threshold, version, at, module_size, detected, planted, around)| C24Case {
                at: match around {
                    Some((fx, fy, m, a, mirrored)) => {
                        let (w, h) = (f64::from(scene.w), f64::from(scene.h));
                        let side = f64::from(version * 4 + 17);
                        let m = m.min(w.min(h) / 14.0);
                        let (cx, cy) = (7.0 * m + fx * (w - 14.0 * m), 7.0 * m + fy * (h - 14.0 * m));
                        let (s, c) = a.sin_cos();
                        let (i, j) = (m * (side - 10.0), m * (side - 7.0));
                        let (x, y) = (cx - i * (c - s), cy - i * (s + c));
                        let (b, d) = ((x + j * c, y + j * s), (x - j * s, y + j * c));
                        if mirrored {
                            [(x, y), d, b]
                        } else {
                            [(x, y), b, d]
                        }
                    }
                    None => at,
                },
                scene,
                threshold,
                version,
                module_size,
                detected,
                planted,
            })
            .boxed()
    }
    fn check(&self, c: &C24Case, ctx: &mut Ctx) -> Result<(), String> {
        let mut img = bw(&c.scene.picture(), c.threshold);
        let (w, h) = img.dimensions();
        if w == 0 || h == 0 {
            ctx.label("empty picture");
            return Ok(());
        }
        let mut at = c.at;
        let (mut version, mut module_size) = (c.version, c.module_size);
        if let Some((n, moved)) = &c.detected {
            let locs = LineScan::new().detect(&img);
            if !locs.is_empty() {
                let Location::QR(q) = &locs[usize::from(*n) % locs.len()];
                let m = q.module_size;
                for (i, p) in [&q.top_left, &q.top_right, &q.bottom_left].iter().enumerate() {
                    at[i] = (p.x + m * moved[i].0, p.y + m * moved[i].1);
                }
                module_size = m;
                if n % 4 != 3 && q.version <= 40 {
                    version = q.version;
                }
                ctx.label("near a detected location");
            }
        }
        let p = at.map(|(x, y)| Point { x, y });
        // a clean alignment pattern well inside of the picture, where it is due
        let mut aligned = None;
        if let (Some(t), true) = (&c.planted, version > 1) {
            let centre = t.paint(&mut img, &p, version);
            let n = f64::from(version * 4 + 17);
            let (a, b) = (p[1] - p[0], p[2] - p[0]);
            let (la, lb) = (len(&p[0], &p[1]), len(&p[0], &p[2]));
            let m = la.min(lb) / (n - 7.0);
            let square = la.max(lb) < 1.05 * la.min(lb) && (a.dx * b.dx + a.dy * b.dy).abs() < 0.05 * la * lb;
            let room = 6.0 * m;
            let fits = |v: f64, n: u32| v > room && v < f64::from(n) - room;
            if t.flips.is_empty() && t.around.is_some() && square && m >= 4.0 && fits(centre.0, w) && fits(centre.1, h) {
                aligned = Some((centre.0, centre.1, m));
            }
            if aligned.is_some() && t.size != 1.0 {
                ctx.label("alignment pattern of another size");
            }
            ctx.label(if aligned.is_some() { "alignment pattern in place" } else { "alignment pattern painted" });
        }
        ctx.comparisons += 1;
        save_debug(&image::DynamicImage::ImageLuma8(img.clone()).to_rgba8());
        let got = QRExtractor::new().extract(
            &img,
            QRLocation {
                top_left: p[0],
                top_right: p[1],
                bottom_left: p[2],
                module_size,
                version,
            },
        );
        let side = version * 4 + 17;
        let data = match got {
            Err(e) if aligned.is_some() => {
                return Err(format!("refused in spite of an alignment pattern around {aligned:?}: {e}"))
            }
            Err(e) if version == 1 => return Err(format!("a version 1 location is refused: {e}")),
            Err(_) => {
                ctx.label("refused");
                return Ok(());
            }
            Ok(d) => d,
        };
        ctx.label(if version == 1 { "version 1 extracted" } else { "version 2 or more extracted" });
        if data.version != version || data.side != side || data.data.len() != (side * side) as usize {
            return Err(format!(
                "version {}, side {}, {} modules for version {version}",
                data.version,
                data.side,
                data.data.len()
            ));
        }
        if let Some(v) = data.data.iter().find(|&&v| v != 0 && v != 255) {
            return Err(format!("a module of brightness {v}"));
        }
        if data.data.contains(&0) && data.data.contains(&255) {
            ctx.nontrivial();
        }
        if let Some((cx, cy, m)) = aligned {
            // rows grow such that the alignment pattern gets to where it is
            let n = f64::from(side);
            let (a, b) = (p[1] - p[0], p[2] - p[0]);
            let whole = ((n - 10.0) / (n - 7.0), (n - 10.0) * (n - 10.0));
            let gx = (cx - (p[0].x + whole.0 * (a.dx + b.dx))) / whole.1;
            let gy = (cy - (p[0].y + whole.0 * (a.dy + b.dy))) / whole.1;
            let mut checked = 0;
            for r in 0..side {
                for q in 0..side {
                    let (u, v) = (f64::from(q) - 3.0, f64::from(r) - 3.0);
                    let x = p[0].x + (u * a.dx + v * b.dx) / (n - 7.0) + u * v * gx;
                    let y = p[0].y + (u * a.dy + v * b.dy) / (n - 7.0) + u * v * gy;
                    // the centre of a turned pattern is measured to a quarter of a module or so
                    let slack = 0.6 + (1.0 + m / 4.0) * (u * v).abs() / whole.1;
                    let (x0, x1) = ((x - slack).round(), (x + slack).round());
                    let (y0, y1) = ((y - slack).round(), (y + slack).round());
                    if x0 < 0.0 || y0 < 0.0 || x1 >= f64::from(w) || y1 >= f64::from(h) {
                        continue;
                    }
                    let want = img.get_pixel(x0 as u32, y0 as u32).0[0];
                    if (y0 as u32..=y1 as u32).any(|y| (x0 as u32..=x1 as u32).any(|x| img.get_pixel(x, y).0[0] != want)) {
                        continue;
                    }
                    checked += 1;
                    let got = data.data[(r * side + q) as usize];
                    if got != want {
                        return Err(format!("module {q}, {r} is {got}, the pixels around {x}, {y} {want}"));
                    }
                }
            }
            ctx.comparisons += checked;
        }
        if version == 1 {
            let (a, b) = (p[1] - p[0], p[2] - p[0]);
            if len(&p[0], &p[1]).max(len(&p[0], &p[2])) < 1e5 {
                let mut inside = 0;
                for r in 0..side {
                    for q in 0..side {
                        let (u, v) = ((f64::from(q) - 3.0) / 14.0, (f64::from(r) - 3.0) / 14.0);
                        let x = p[0].x + u * a.dx + v * b.dx;
                        let y = p[0].y + u * a.dy + v * b.dy;
                        let edge = |t: f64| (t - t.floor() - 0.5).abs() < 1e-6;
                        let fits = |t: f64, n: u32| t > -0.499 && t < f64::from(n) - 0.501;
                        if edge(x) || edge(y) || !fits(x, w) || !fits(y, h) {
                            continue;
                        }
                        inside += 1;
                        let want = img.get_pixel(x.round() as u32, y.round() as u32).0[0];
                        let got = data.data[(r * side + q) as usize];
                        if got != want || data[[q, r]] != u8::from(want == 0) {
                            return Err(format!("module {q}, {r} is {got}, the pixel at {x}, {y} {want}"));
                        }
                    }
                }
                ctx.label(match inside {
                    0 => "all of it outside of the picture",
                    441 => "all of it inside of the picture",
                    _ => "partly outside of the picture",
                });
            }
        }
        let _ = QRDecoder::new().decode(Ok(data));
        Ok(())
    }
}
