//! C21, C22: pictures as a camera or a scanner makes them, within limits.

use super::extract::{mul, solve_far};
use super::image::*;
use super::prepare::Noise;
use crate::draw::*;
use crate::refqr::Symbol;
use crate::run::*;
use image::{Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Photo {
    pub code: Code,
    /// pixels per module
    pub scale: f64,
    pub degrees: f64,
    pub quarter: u8,
    pub stretch: f64,
    pub skew: f64,
    /// displacement of the far alignment centre by perspective, in modules along the symbol's axes
    pub far: (f64, f64),
    pub quiet: f64,
    pub margin: [i64; 4],
    /// brightness of dark and light modules
    pub shades: (u8, u8),
    /// each pixel is brighter or darker by up to this
    pub grain: u8,
    pub seed: u64,
    /// standard deviation of the blur in modules
    pub blur: f64,
}

/// Blur by a Gaussian of this standard deviation in pixels.
fn blurred(img: &[f64], w: usize, h: usize, sigma: f64) -> Vec<f64> {
    if sigma < 0.05 {
        return img.to_vec();
    }
    let r = (3.0 * sigma).ceil() as i64;
    let k: Vec<f64> = (-r..=r).map(|i| (-(i * i) as f64 / (2.0 * sigma * sigma)).exp()).collect();
    let sum: f64 = k.iter().sum();
    let pass = |src: &[f64], horizontal: bool| -> Vec<f64> {
        let mut out = vec![0.0; w * h];
        for y in 0..h {
            for x in 0..w {
                let mut a = 0.0;
                for (j, v) in k.iter().enumerate() {
                    let d = j as i64 - r;
                    let (sx, sy) = if horizontal {
                        ((x as i64 + d).clamp(0, w as i64 - 1) as usize, y)
                    } else {
                        (x, (y as i64 + d).clamp(0, h as i64 - 1) as usize)
                    };
                    a += v * src[sy * w + sx];
                }
                out[y * w + x] = a / sum;
            }
        }
        out
    };
    pass(&pass(img, true), false)
}

impl Photo {
    fn map(&self, size: usize) -> (Map, u32, u32) {
        let n = size as f64;
        let (s, c) = (self.degrees + 90.0 * f64::from(self.quarter)).to_radians().sin_cos();
        let k = self.scale;
        let a = [
            [c * k, (-s * self.stretch + c * self.skew) * k, 0.0],
            [s * k, (c * self.stretch + s * self.skew) * k, 0.0],
            [0.0, 0.0, 1.0],
        ];
        let m = if self.far == (0.0, 0.0) {
            Map(a)
        } else {
            Map(mul(&a, &solve_far(n, self.far).0))
        };
        let q = self.quiet;
        let pts = [m.apply(-q, -q), m.apply(n + q, -q), m.apply(-q, n + q), m.apply(n + q, n + q)];
        let lo = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::MAX, f64::min);
        let hi = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::MIN, f64::max);
        let (x0, x1) = (lo(|p| p.0).floor(), hi(|p| p.0).ceil());
        let (y0, y1) = (lo(|p| p.1).floor(), hi(|p| p.1).ceil());
        let shift = [
            [1.0, 0.0, self.margin[0] as f64 - x0],
            [0.0, 1.0, self.margin[1] as f64 - y0],
            [0.0, 0.0, 1.0],
        ];
        (
            Map(mul(&shift, &m.0)),
            (x1 - x0) as u32 + (self.margin[0] + self.margin[2]) as u32,
            (y1 - y0) as u32 + (self.margin[1] + self.margin[3]) as u32,
        )
    }

    /// The picture and the true finder patterns in it.
    pub fn picture(&self, sym: &Symbol) -> (RgbaImage, Vec<Mark>) {
        let (map, w, h) = self.map(sym.size);
        let mut img = canvas(w, h, WHITE);
        draw_map(&mut img, sym, &map, self.quiet, 3, [0.0; 3], [255.0; 3]);
        let grey: Vec<f64> = img.pixels().map(|p| f64::from(p.0[0]) / 255.0).collect();
        let soft = blurred(&grey, w as usize, h as usize, self.blur * self.scale);
        let mut r = Noise(self.seed);
        let (d, l) = (f64::from(self.shades.0), f64::from(self.shades.1));
        for (p, v) in img.pixels_mut().zip(soft) {
            let g = f64::from(self.grain);
            let noise = (r.below(20_001) as f64 / 10_000.0 - 1.0) * g;
            let b = (d + (l - d) * v + noise).round().clamp(0.0, 255.0) as u8;
            *p = Rgba([b, b, b, 255]);
        }
        let n = sym.size as f64;
        let f = [(3.5, 3.5), (n - 3.5, 3.5), (3.5, n - 3.5)]
            .iter()
            .map(|&(u, v)| {
                let (x, y) = map.apply(u, v);
                // the width of the finder pattern along a line
                let side = |a: (f64, f64), b: (f64, f64)| {
                    let (p, q) = (map.apply(u + a.0, v + a.1), map.apply(u + b.0, v + b.1));
                    (p.0 - q.0).hypot(p.1 - q.1) / 7.0
                };
                let m = (side((-3.5, 0.0), (3.5, 0.0)) * side((0.0, -3.5), (0.0, 3.5))).sqrt();
                Mark { x, y, m }
            })
            .collect();
        (img, f)
    }

    fn check(&self, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, want) = self.code.symbol();
        let (img, finders) = self.picture(&sym);
        save_debug(&img);
        ctx.label(match self.code.version {
            1 => "version 1",
            2..=6 => "version 2-6",
            7..=13 => "version 7-13",
            14..=26 => "version 14-26",
            _ => "version 27-40",
        });
        if !domain(&prepared(&img), &finders, Some(sym.size as f64 - 7.0), ctx) {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.comparisons += 1;
        let got = decode_info(&img);
        let errors = got.iter().find_map(|r| r.as_ref().ok()).map_or(0, |r| r.1.errors);
        if errors > 0 {
            ctx.label("read with errors");
        }
        expect_one(&got, &want, &self.code.info(errors))
    }
}

pub struct C21;

impl Prop for C21 {
    type Case = Photo;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Codes of all versions, smoothly drawn (nine samples per pixel) at 6 to 14 pixels per module (9 and more for version 1) and decoded by the default decoder: turned by up to half of the angle of C09 on top of quarter turns, stretched and skewed by up to 3 percent (less for large versions: 0.6 modules over the distance of the finder patterns), and in perspective, with the last alignment pattern off by up to 0.2 modules (0.05 for version 1, which has none). Exactly one text, the encoded one, with exact version, level and size. Non-trivial: not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(3_000, 60_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<Photo> {
        let (v, l, m) = pick(idx, 10);
        // version 1 has no alignment pattern to correct by
        let far = if v == 1 { 0.05 } else { 0.2 };
        // a plain scanner takes the module size along the lines for that of the distances
        let sk = 0.6 / (v as f64 * 4.0 + 10.0);
        let sk = sk.min(0.03);
        let top = (t.pick(900, 1500) / (v as i64 * 4 + 25)).clamp(6, 14) as f64;
        let a = max_angle(v) * 0.5;
        (
            code_of(v, l, m),
            ({ let lo: f64 = if v == 1 { 9.0 } else { 6.0 }; lo..=top.max(lo + 0.01) }, -a..a, 0u8..4),
            (1.0 - sk..1.0 + sk, -sk..sk),
            (-far..far, -far..far),
            4.0f64..7.0,
            [0i64..30, 0i64..30, 0i64..30, 0i64..30],
        )
            .prop_map(|(code, (scale, degrees, quarter), (stretch, skew), far, quiet, margin)| Photo {
                code,
                scale,
                degrees,
                quarter,
                stretch,
                skew,
                far,
                quiet,
                margin,
                shades: (0, 255),
                grain: 0,
                seed: 0,
                blur: 0.0,
            })
            .boxed()
    }
    fn check(&self, c: &Photo, ctx: &mut Ctx) -> Result<(), String> {
        Photo::check(c, ctx)
    }
}

pub struct C22;

impl Prop for C22 {
    type Case = Photo;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Codes of all versions, smoothly drawn at 5 to 12 pixels per module (7 and more for version 1), turned by up to a fifth of the angle of C09 on top of quarter turns, blurred by a Gaussian of up to 0.2 modules, dark modules of brightness 0 to 89, light ones of 160 to 255 with each pixel off by up to 15 (at up to 5 pixels per module), or of 255 off by up to 4 (versions 1 to 13). Exactly one text, the encoded one, with exact version, level and size. Non-trivial: not excluded."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![DOMAIN.into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(4_000, 60_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<Photo> {
        let bright = idx % 4 == 0;
        let (mut v, l, m) = pick(idx, 10);
        if bright {
            // blurred finder patterns on pure white come out wide
            v = (v - 1) % 13 + 1;
        }
        let blur = 0.2;
        let grain = 15u8;
        let top = if bright { 12.0 } else { 5.0 };
        let top = f64::min(top, t.pick(900, 1500) as f64 / (v as f64 * 4.0 + 25.0));
        let a = max_angle(v) * 0.2;
        (
            code_of(v, l, m),
            ({ let lo: f64 = if v == 1 { 7.0 } else { 5.0 }; lo..=top.max(lo + 0.01) }, -a..a, 0u8..4),
            0.0..blur,
            (0u8..90, 160u8..=255, 0..=grain, any::<u64>()),
            4.0f64..6.0,
        )
            .prop_map(move |(code, (scale, degrees, quarter), blur, (dark, light, grain, seed), quiet)| Photo {
                code,
                scale,
                degrees,
                quarter,
                stretch: 1.0,
                skew: 0.0,
                far: (0.0, 0.0),
                quiet,
                margin: [0; 4],
                shades: (dark, if bright { 255 } else { light }),
                grain: if bright { grain.min(4) } else { grain },
                seed,
                blur,
            })
            .boxed()
    }
    fn check(&self, c: &Photo, ctx: &mut Ctx) -> Result<(), String> {
        Photo::check(c, ctx)
    }
}
