//! C14: colours, illumination and pixel formats.

use super::image::*;
use super::prepare::Noise;
use crate::draw::*;
use crate::run::*;
use image::{DynamicImage, GenericImageView, Rgba, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Light {
    /// dark and light colour
    Colours([u8; 3], [u8; 3]),
    /// as bright as this in thousandths at the four corners, `dark` of the light colour's
    /// brightness for dark modules
    Shade { corners: [u16; 4], dark: u16 },
    /// every pixel in a colour of its own, dark and light ones
    Motley { dark: u8, light: u8, seed: u64 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C14Case {
    pub pic: Upright,
    pub quarter: u8,
    pub light: Light,
}

pub struct C14;

fn luma(c: [f64; 3]) -> f64 {
    0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]
}

impl C14Case {
    pub fn colour(&self, dark: bool, x: u32, y: u32, w: u32, h: u32) -> [u8; 3] {
        match &self.light {
            Light::Colours(d, l) => {
                if dark {
                    *d
                } else {
                    *l
                }
            }
            Light::Shade { corners, dark: k } => {
                let (u, v) = (f64::from(x) / f64::from(w), f64::from(y) / f64::from(h));
                let c = |i: usize| f64::from(corners[i]) / 1000.0;
                let b = (c(0) * (1.0 - u) + c(1) * u) * (1.0 - v) + (c(2) * (1.0 - u) + c(3) * u) * v;
                let b = b * 255.0 * if dark { f64::from(*k) / 1000.0 } else { 1.0 };
                [b.round() as u8; 3]
            }
            Light::Motley { dark: d, light: l, seed } => {
                let r = Noise(seed ^ (u64::from(x) << 32 | u64::from(y))).next();
                let top = u64::from(if dark { *d } else { 255 - *l }) + 1;
                let v = [r & 0xffff, (r >> 16) & 0xffff, (r >> 32) & 0xffff].map(|v| (v % top) as u8);
                if dark {
                    v
                } else {
                    v.map(|v| 255 - v)
                }
            }
        }
    }

    pub fn picture(&self) -> (RgbaImage, RgbaImage, String) {
        let (sym, want) = self.pic.code.symbol();
        let plain = rotate(&self.pic.picture(&sym, BLACK, WHITE), self.quarter);
        let (w, h) = plain.dimensions();
        let img = RgbaImage::from_fn(w, h, |x, y| {
            let [r, g, b] = self.colour(plain.get_pixel(x, y).0[0] == 0, x, y, w, h);
            Rgba([r, g, b, 255])
        });
        (img, plain, want)
    }
}

/// A view that computes its pixels.
struct View<'a> {
    img: &'a RgbaImage,
    off: (u32, u32),
    size: (u32, u32),
}

impl GenericImageView for View<'_> {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.size
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.size.0, self.size.1)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        assert!(x < self.size.0 && y < self.size.1, "pixel ({x}, {y}) outside of the view");
        *self.img.get_pixel(x + self.off.0, y + self.off.1)
    }
}

fn view_decode<D: GenericImageView<Pixel = Rgba<u8>>>(d: &D) -> Results {
    flat(bardecoder::default_decoder_with_info::<D>().decode(d))
}

/// The same picture in another pixel format.
pub fn formats(img: &RgbaImage) -> Vec<(&'static str, DynamicImage)> {
    let d = DynamicImage::ImageRgba8(img.clone());
    let mut v = vec![
        ("rgb8", DynamicImage::ImageRgb8(d.to_rgb8())),
        ("rgb16", DynamicImage::ImageRgb16(d.to_rgb16())),
        ("rgba16", DynamicImage::ImageRgba16(d.to_rgba16())),
        ("rgb32f", DynamicImage::ImageRgb32F(d.to_rgb32f())),
        ("rgba32f", DynamicImage::ImageRgba32F(d.to_rgba32f())),
    ];
    if img.pixels().all(|p| p.0[0] == p.0[1] && p.0[1] == p.0[2]) {
        v.push(("luma8", DynamicImage::ImageLuma8(d.to_luma8())));
        v.push(("lumaa8", DynamicImage::ImageLumaA8(d.to_luma_alpha8())));
        v.push(("luma16", DynamicImage::ImageLuma16(d.to_luma16())));
        v.push(("lumaa16", DynamicImage::ImageLumaA16(d.to_luma_alpha16())));
    }
    v.push(("rgba8", d));
    v
}

impl Prop for C14 {
    type Case = C14Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "the picture is inside the domain (no imitation of a finder pattern beside a true one, judged on the binarised picture by an independent scanner), so that its contents were compared"
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(3_600, 90_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C14Case> {
        let (v, l, _) = pick(idx, 8);
        let bright = idx % 4 == 0;
        let colours = (any::<[u8; 3]>(), any::<[u8; 3]>())
            .prop_map(move |(a, b)| {
                let f = |c: [u8; 3]| luma(c.map(f64::from));
                let (d, mut l) = if f(a) < f(b) { (a, b) } else { (b, a) };
                if bright {
                    l = l.map(|c| 252 + c % 4);
                }
                (d, l)
            })
            .prop_filter_map("contrast", |(d, l)| {
                let f = |c: [u8; 3]| luma(c.map(f64::from));
                (f(l) - f(d) >= 60.0).then(|| Light::Colours(d, l))
            });
        let light = match idx % 4 {
            0 | 1 => colours.boxed(),
            2 => ([400u16..=1000, 400u16..=1000, 400u16..=1000, 400u16..=1000], 0u16..500)
                .prop_map(|(corners, dark)| Light::Shade { corners, dark })
                .boxed(),
            _ => (0u8..90, 166u8..=255, any::<u64>())
                .prop_map(|(dark, light, seed)| Light::Motley { dark, light, seed })
                .boxed(),
        };
        let top = if bright { 30 } else { 5 };
        (
            upright_of(code_of(v, l, None), v, 3, top, t.pick(900, 1500)),
            0u8..4,
            light,
        )
            .prop_map(|(pic, quarter, light)| C14Case { pic, quarter, light })
            .boxed()
    }
    fn check(&self, c: &C14Case, ctx: &mut Ctx) -> Result<(), String> {
        let (img, _, want) = c.picture();
        let (sym, _) = c.pic.code.symbol();
        save_debug(&img);
        ctx.label(match c.light {
            Light::Colours(..) => "two colours",
            Light::Shade { .. } => "uneven light",
            Light::Motley { .. } => "motley colours",
        });
        if !domain(&prepared(&img), &c.pic.turned(&sym, c.quarter), None, ctx) {
            return Ok(());
        }
        ctx.nontrivial();
        ctx.comparisons += 1;
        let got = decode_info(&img);
        let errors = got.iter().find_map(|r| r.as_ref().ok()).map_or(0, |r| r.1.errors);
        if errors > 0 {
            ctx.label("read with errors");
        }
        expect_one(&got, &want, &c.pic.code.info(errors))?;
        for (name, d) in formats(&img) {
            ctx.comparisons += 1;
            let g = view_decode(&d);
            if g != got {
                return Err(format!("{g:?} from the picture as {name} instead of {got:?}"));
            }
        }
        let (w, h) = img.dimensions();
        let mut big = RgbaImage::from_fn(w + 9, h + 14, |x, y| {
            Rgba([(x * 7 + y * 13) as u8, (x * y) as u8, x as u8, 255])
        });
        image::imageops::replace(&mut big, &img, 4, 11);
        ctx.comparisons += 2;
        let g = view_decode(&*big.view(4, 11, w, h));
        if g != got {
            return Err(format!("{g:?} from a sub-image instead of {got:?}"));
        }
        let g = view_decode(&View { img: &big, off: (4, 11), size: (w, h) });
        if g != got {
            return Err(format!("{g:?} from a view instead of {got:?}"));
        }
        Ok(())
    }
}
