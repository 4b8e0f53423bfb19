//! C12: sampling of the modules of a code at a known location.

use super::image::*;
use crate::draw::*;
use crate::refqr::Symbol;
use crate::run::*;
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::util::qr::QRLocation;
use bardecoder::util::Point;
use image::{GrayImage, Luma, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What becomes of the last alignment pattern and the data around it.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Around {
    /// all stays
    Same,
    /// data around it light
    Clear,
    /// no pattern: all light or dark
    Light,
    Dark,
    /// no pattern: light data, and the pattern spoilt
    LightCentre,
    Solid,
    Dot,
    /// one side of the outer square missing
    Open(u8),
    /// one side of the light square dark
    Filled(u8),
}

impl Around {
    fn spoilt(self) -> bool {
        !matches!(self, Around::Same | Around::Clear)
    }
    fn apply(self, sym: &mut Symbol) {
        if sym.version == 1 || self == Around::Same {
            return;
        }
        let n = sym.size as i64;
        let c = n - 7;
        for y in c - 6..n {
            for x in c - 6..n {
                let at = (y * n + x) as usize;
                let (dx, dy) = (x - c, y - c);
                let r = dx.abs().max(dy.abs());
                let side = |k: u8, d: i64| match k % 4 {
                    0 => dy == -d,
                    1 => dx == d,
                    2 => dy == d,
                    _ => dx == -d,
                };
                let v = match self {
                    Around::Same => continue,
                    Around::Light => false,
                    Around::Dark => true,
                    _ if r > 2 => false,
                    Around::Clear => r != 1,
                    Around::LightCentre => r == 2,
                    Around::Solid => true,
                    Around::Dot => r == 0,
                    Around::Open(k) => r == 0 || r == 2 && !side(k, 2),
                    Around::Filled(k) => r != 1 || side(k, 1),
                };
                sym.dark[at] = v;
            }
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C12Case {
    pub code: Code,
    pub scale: f64,
    pub degrees: f64,
    pub stretch: f64,
    pub skew: f64,
    /// displacement of the far corner in modules along the symbol's axes
    pub far: (f64, f64),
    /// displacement of the far alignment centre by growing rows (or columns), in modules
    pub bend: (f64, f64),
    pub quiet: f64,
    pub margin: [i64; 4],
    /// errors of the finder centres in modules
    pub jitter: [(f64, f64); 3],
    pub around: Around,
}

pub fn solve_far(n: f64, far: (f64, f64)) -> Map {
    // projective map of module space onto itself that fixes three finder centres' corners
    // (3.5,3.5), (n-3.5,3.5), (3.5,n-3.5) and moves the alignment centre (n-6.5,n-6.5)
    // by `far`
    let d = n - 7.0;
    let t = (n - 10.0) / d;
    // unit coordinates: p = (a, b) with centres at (0,0), (1,0), (0,1); map
    // (a, b) -> ((1+g) a, (1+h) b) / (1 + g a + h b) fixes them
    let u = t + far.0 / d;
    let v = t + far.1 / d;
    // u (1 + (g+h) t) = (1+g) t ; v (1 + (g+h) t) = (1+h) t
    // linear in g, h: g (u t - t) + h u t = t - u ; g v t + h (v t - t) = t - v
    let (a1, b1, c1) = (u * t - t, u * t, t - u);
    let (a2, b2, c2) = (v * t, v * t - t, t - v);
    let det = a1 * b2 - a2 * b1;
    let g = (c1 * b2 - c2 * b1) / det;
    let h = (a1 * c2 - a2 * c1) / det;
    // in module coordinates: p -> 3.5 + d * unit((p - 3.5) / d)
    let to = [[1.0 / d, 0.0, -3.5 / d], [0.0, 1.0 / d, -3.5 / d], [0.0, 0.0, 1.0]];
    let mid = [[1.0 + g, 0.0, 0.0], [0.0, 1.0 + h, 0.0], [g, h, 1.0]];
    let back = [[d, 0.0, 3.5], [0.0, d, 3.5], [0.0, 0.0, 1.0]];
    Map(mul(&back, &mul(&mid, &to)))
}

pub fn mul(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut r = [[0.0; 3]; 3];
    for (i, row) in r.iter_mut().enumerate() {
        for (j, v) in row.iter_mut().enumerate() {
            *v = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}

impl C12Case {
    pub fn map(&self, size: usize) -> (Map, u32, u32) {
        let n = size as f64;
        let (s, c) = self.degrees.to_radians().sin_cos();
        let k = self.scale;
        let a = [
            [c * k, (-s * self.stretch + c * self.skew) * k, 0.0],
            [s * k, (c * self.stretch + s * self.skew) * k, 0.0],
            [0.0, 0.0, 1.0],
        ];
        let far = solve_far(n, self.far);
        let m = Map(mul(&a, &far.0));
        let q = self.quiet;
        let pts = [
            m.apply(-q, -q),
            m.apply(n + q, -q),
            m.apply(-q, n + q),
            m.apply(n + q, n + q),
        ];
        let lo = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::MAX, f64::min);
        let hi = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::MIN, f64::max);
        let (x0, x1) = (lo(|p| p.0).floor(), hi(|p| p.0).ceil());
        let (y0, y1) = (lo(|p| p.1).floor(), hi(|p| p.1).ceil());
        let shift = [
            [1.0, 0.0, self.margin[0] as f64 - x0],
            [0.0, 1.0, self.margin[1] as f64 - y0],
            [0.0, 0.0, 1.0],
        ];
        (
            Map(mul(&shift, &m.0)),
            (x1 - x0) as u32 + (self.margin[0] + self.margin[2]) as u32,
            (y1 - y0) as u32 + (self.margin[1] + self.margin[3]) as u32,
        )
    }
}

pub struct C12;

/// A code whose rows (columns) grow steadily: module (u, v), counted from the centre of the top
/// left finder, is drawn where the map puts (u + bx u v, v + by u v).
fn draw_bent(img: &mut RgbaImage, sym: &Symbol, map: &Map, bend: (f64, f64)) {
    let inv = map.inverse();
    let n = sym.size as f64;
    for (x, y, p) in img.enumerate_pixels_mut() {
        let (a, b) = inv.apply(f64::from(x) + 0.5, f64::from(y) + 0.5);
        let (a, b) = (a - 3.5, b - 3.5);
        let (mut u, mut v) = (a, b);
        for _ in 0..12 {
            (u, v) = (a - bend.0 * u * v, b - bend.1 * u * v);
        }
        let (u, v) = (u + 3.5, v + 3.5);
        let inside = u >= 0.0 && v >= 0.0 && u < n && v < n;
        *p = if inside && sym.get(u as usize, v as usize) { BLACK } else { WHITE };
    }
}

fn bw(img: &RgbaImage) -> GrayImage {
    GrayImage::from_fn(img.width(), img.height(), |x, y| {
        Luma([if img.get_pixel(x, y).0[0] < 128 { 0 } else { 255 }])
    })
}

impl Prop for C12 {
    type Case = C12Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Codes of all versions under a map (any rotation, 6 to 30 pixels per module, stretch and skew up to 8 percent, the far alignment pattern off by up to half a module by perspective), binary, extracted at their true finder centres off by up to a tenth of a module: the matrix is the symbol's, in order, with its version and side. Every third picture has the last alignment pattern erased or spoilt (light or dark area, wrong centre, solid, dot only, a side of either square wrong): an error for version 2 and more. Every third has light data around the alignment pattern and more perspective, half of these instead rows or columns that grow steadily, as the extractor models perspective, by up to 1.4 modules at the alignment pattern. Non-trivial: all."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(9_000, 150_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C12Case> {
        let (v, l, m) = pick(idx, 10);
        let (skew, far) = match (v, idx % 3) {
            (1, _) => (0.08, 0.02),
            (_, 0) => (0.08, 0.15),
            (2, _) => (0.08, 0.3),
            (3, _) => (0.08, 0.4),
            _ => (0.08, 0.55),
        };
        let around = match idx % 3 {
            0 => Just(Around::Same).boxed(),
            1 => Just(Around::Clear).boxed(),
            _ => prop_oneof![
                Just(Around::Light),
                Just(Around::Dark),
                Just(Around::LightCentre),
                Just(Around::Solid),
                Just(Around::Dot),
                (0u8..4).prop_map(Around::Open),
                (0u8..4).prop_map(Around::Filled),
            ]
            .boxed(),
        };
        // codes the extractor's own model of perspective describes: rows that grow steadily
        let bent = idx % 6 == 4 && v > 1;
        let (skew, far) = if bent { (0.04, 1e-9) } else { (skew, far) };
        let bend = if bent { 1.4 } else { 1e-9 };
        let top = (t.pick(900, 1500) / (v as i64 * 4 + 25)).clamp(6, 30) as f64;
        (
            code_of(v, l, m),
            (6.0f64..=top.max(6.01), -180.0f64..180.0),
            (1.0 - skew..1.0 + skew, -skew..skew),
            (-far..far, -far..far, -bend..bend, -bend..bend),
            0.0f64..5.0,
            [0i64..40, 0i64..40, 0i64..40, 0i64..40],
            [(-0.1f64..0.1, -0.1f64..0.1), (-0.1f64..0.1, -0.1f64..0.1), (-0.1f64..0.1, -0.1f64..0.1)],
            around,
        )
            .prop_map(move |(code, (scale, degrees), (stretch, skew), (fx, fy, bx, by), quiet, margin, jitter, around)| C12Case {
                code,
                scale,
                degrees,
                stretch,
                skew,
                far: if bent { (0.0, 0.0) } else { (fx, fy) },
                bend: if bent { (bx, by) } else { (0.0, 0.0) },
                quiet: if bent { quiet + 3.0 } else { quiet },
                margin,
                jitter,
                around,
            })
            .boxed()
    }
    fn check(&self, c: &C12Case, ctx: &mut Ctx) -> Result<(), String> {
        let (mut sym, _) = c.code.symbol();
        c.around.apply(&mut sym);
        let n = sym.size as f64;
        let (map, w, h) = c.map(sym.size);
        let mut img = canvas(w, h, WHITE);
        if c.bend == (0.0, 0.0) {
            draw_map(&mut img, &sym, &map, c.quiet, 1, [0.0; 3], [255.0; 3]);
        } else {
            let d = (n - 10.0) * (n - 10.0);
            draw_bent(&mut img, &sym, &map, (c.bend.0 / d, c.bend.1 / d));
            let far = c.bend.0.abs().max(c.bend.1.abs());
            ctx.label(if far > 1.0 { "bent by more than a module" } else { "bent by up to a module" });
        }
        save_debug(&img);
        let at = |u: f64, v: f64, j: (f64, f64)| {
            let (x, y) = map.apply(u + j.0, v + j.1);
            Point { x, y }
        };
        let loc = QRLocation {
            top_left: at(3.5, 3.5, c.jitter[0]),
            top_right: at(n - 3.5, 3.5, c.jitter[1]),
            bottom_left: at(3.5, n - 3.5, c.jitter[2]),
            module_size: c.scale,
            version: sym.version as u32,
        };
        ctx.label(match sym.version {
            1 => "version 1",
            2..=6 => "version 2-6",
            7..=13 => "version 7-13",
            14..=26 => "version 14-26",
            _ => "version 27-40",
        });
        ctx.nontrivial();
        ctx.comparisons += 1;
        ctx.label(format!("{:?}", c.around));
        match QRExtractor::new().extract(&bw(&img), loc) {
            r if c.around.spoilt() && sym.version > 1 => match r {
                Err(_) => Ok(()),
                Ok(_) => Err("data instead of an error though there is no alignment pattern".into()),
            },
            Err(e) => Err(e.to_string()),
            Ok(d) => {
                if d.version != sym.version as u32 || d.side as usize != sym.size || d.data.len() != sym.dark.len() {
                    return Err(format!("version {} side {} and {} modules", d.version, d.side, d.data.len()));
                }
                let bad = d.data.iter().zip(&sym.dark).filter(|(p, d)| (**p == 0) != **d).count();
                if bad > 0 {
                    return Err(format!("{bad} modules wrong"));
                }
                Ok(())
            }
        }
    }
}
