//! Drawing symbols into pictures, with full knowledge of where everything is.

use crate::refqr::*;
use image::{GrayImage, Rgba, RgbaImage};

pub const BLACK: Rgba<u8> = Rgba([0, 0, 0, 255]);
pub const WHITE: Rgba<u8> = Rgba([255, 255, 255, 255]);

pub fn canvas(w: u32, h: u32, c: Rgba<u8>) -> RgbaImage {
    RgbaImage::from_pixel(w, h, c)
}

pub fn fill_rect(img: &mut RgbaImage, x0: i64, y0: i64, w: i64, h: i64, c: Rgba<u8>) {
    for y in y0.max(0)..(y0 + h).min(i64::from(img.height())) {
        for x in x0.max(0)..(x0 + w).min(i64::from(img.width())) {
            img.put_pixel(x as u32, y as u32, c);
        }
    }
}

/// Draw with the top left corner of the symbol itself (without quiet zone) at (x0, y0), `quiet`
/// light modules around it; what falls outside of the picture is cut off.
#[allow(clippy::too_many_arguments)]
pub fn draw(
    img: &mut RgbaImage,
    sym: &Symbol,
    x0: i64,
    y0: i64,
    scale: i64,
    quiet: i64,
    dark: Rgba<u8>,
    light: Rgba<u8>,
) {
    let n = sym.size as i64;
    fill_rect(
        img,
        x0 - quiet * scale,
        y0 - quiet * scale,
        (n + 2 * quiet) * scale,
        (n + 2 * quiet) * scale,
        light,
    );
    for y in 0..n {
        for x in 0..n {
            if sym.get(x as usize, y as usize) {
                fill_rect(img, x0 + x * scale, y0 + y * scale, scale, scale, dark);
            }
        }
    }
}

/// A projective map from module coordinates (module (i, j) covers [i, i+1) x [j, j+1)) to pixels.
#[derive(Debug, Clone, Copy)]
pub struct Map(pub [[f64; 3]; 3]);

impl Map {
    pub fn affine(ax: f64, ay: f64, bx: f64, by: f64, tx: f64, ty: f64) -> Map {
        Map([[ax, bx, tx], [ay, by, ty], [0.0, 0.0, 1.0]])
    }
    pub fn apply(&self, u: f64, v: f64) -> (f64, f64) {
        let m = &self.0;
        let w = m[2][0] * u + m[2][1] * v + m[2][2];
        (
            (m[0][0] * u + m[0][1] * v + m[0][2]) / w,
            (m[1][0] * u + m[1][1] * v + m[1][2]) / w,
        )
    }
    pub fn inverse(&self) -> Map {
        let m = &self.0;
        let c = |a: usize, b: usize, d: usize, e: usize| m[a][b] * m[d][e] - m[a][e] * m[d][b];
        let adj = [
            [c(1, 1, 2, 2), -c(0, 1, 2, 2), c(0, 1, 1, 2)],
            [-c(1, 0, 2, 2), c(0, 0, 2, 2), -c(0, 0, 1, 2)],
            [c(1, 0, 2, 1), -c(0, 0, 2, 1), c(0, 0, 1, 1)],
        ];
        Map(adj)
    }
}

/// Draw under a map; `ss` x `ss` samples per pixel (1: hard edges).
pub fn draw_map(
    img: &mut RgbaImage,
    sym: &Symbol,
    map: &Map,
    quiet: f64,
    ss: u32,
    dark: [f64; 3],
    light: [f64; 3],
) {
    let inv = map.inverse();
    let n = sym.size as f64;
    let corners = [
        map.apply(-quiet, -quiet),
        map.apply(n + quiet, -quiet),
        map.apply(-quiet, n + quiet),
        map.apply(n + quiet, n + quiet),
    ];
    let x0 = corners.iter().map(|c| c.0).fold(f64::MAX, f64::min).floor().max(0.0) as u32;
    let y0 = corners.iter().map(|c| c.1).fold(f64::MAX, f64::min).floor().max(0.0) as u32;
    let x1 = (corners.iter().map(|c| c.0).fold(f64::MIN, f64::max).ceil().max(0.0) as u32).min(img.width());
    let y1 = (corners.iter().map(|c| c.1).fold(f64::MIN, f64::max).ceil().max(0.0) as u32).min(img.height());
    for y in y0..y1 {
        for x in x0..x1 {
            let mut acc = [0.0f64; 3];
            let old = *img.get_pixel(x, y);
            for sy in 0..ss {
                for sx in 0..ss {
                    let px = f64::from(x) + (f64::from(sx) + 0.5) / f64::from(ss);
                    let py = f64::from(y) + (f64::from(sy) + 0.5) / f64::from(ss);
                    let (u, v) = inv.apply(px, py);
                    let inside = u >= -quiet && v >= -quiet && u < n + quiet && v < n + quiet;
                    for (k, a) in acc.iter_mut().enumerate() {
                        *a += if !inside {
                            f64::from(old.0[k])
                        } else if u >= 0.0
                            && v >= 0.0
                            && u < n
                            && v < n
                            && sym.get(u as usize, v as usize)
                        {
                            dark[k]
                        } else {
                            light[k]
                        };
                    }
                }
            }
            let q = f64::from(ss * ss);
            img.put_pixel(
                x,
                y,
                Rgba([
                    (acc[0] / q).round() as u8,
                    (acc[1] / q).round() as u8,
                    (acc[2] / q).round() as u8,
                    255,
                ]),
            );
        }
    }
}

pub fn rotate(img: &RgbaImage, quarter: u8) -> RgbaImage {
    match quarter % 4 {
        0 => img.clone(),
        1 => image::imageops::rotate90(img),
        2 => image::imageops::rotate180(img),
        _ => image::imageops::rotate270(img),
    }
}

// ---------------------------------------------------------------- ambiguous pictures
//
// Now and then the data modules of a code imitate a finder pattern (1:1:3:1:1 along a row, a column
// and a diagonal, within the tolerance a scanner needs for photographs) close to a true finder, and a
// scanner that takes what it meets first cannot tell which is meant.  The properties about pictures
// are about unambiguous ones.  Whether a picture is ambiguous is decided here, by an independent
// plain scanner on the black and white picture that the harness's own model of a local threshold
// makes of the drawing, never by what the library does.

#[derive(Debug, Clone, Copy)]
pub struct Mark {
    pub x: f64,
    pub y: f64,
    pub m: f64,
}

/// The last six finished or running runs of a line, newest last.
#[derive(Clone, Copy, Default)]
struct Window {
    r: [f64; 7],
}

impl Window {
    fn total(&self) -> f64 {
        self.r[2..].iter().sum()
    }
    fn fits(&self) -> bool {
        let t = self.total();
        if t < 7.0 {
            return false;
        }
        let m = t / 7.0;
        let tol = m / 1.5;
        [1.0, 1.0, 3.0, 1.0, 1.0]
            .iter()
            .zip(&self.r[2..])
            .all(|(k, v)| (k * m - v).abs() <= tol)
    }
    fn turn(&mut self) {
        let r = &mut self.r;
        if r[6] < r[5] / 10.0 && r[4] != 0.0 {
            // a speck: merge it into the run before
            r[6] += r[5];
            r.copy_within(0..5, 1);
            r[0] = 0.0;
        } else {
            self.turn_exact();
        }
    }
    fn turn_exact(&mut self) {
        self.r.copy_within(1..7, 0);
        self.r[6] = 1.0;
    }
}

fn near_size(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() / a.max(b) < tol
}

/// The first finder-like stretch along a line of points: its end and its module size.
fn along(
    pts: impl Iterator<Item = (u32, u32)>,
    dark: &dyn Fn(u32, u32) -> bool,
    m: Option<f64>,
) -> Option<(u32, u32, f64)> {
    let mut w = Window::default();
    let mut last: Option<bool> = None;
    let mut end = (0, 0);
    let ok = |w: &Window| w.fits() && m.map_or(true, |m| near_size(m, w.total() / 7.0, 0.2));
    for (x, y) in pts {
        let d = dark(x, y);
        if last == Some(d) {
            w.r[6] += 1.0;
        } else {
            if ok(&w) {
                return Some((x, y, w.total() / 7.0));
            }
            last = Some(d);
            w.turn();
        }
        end = (x, y);
    }
    ok(&w).then(|| (end.0, end.1, w.total() / 7.0))
}

/// Scan a black and white picture for finder patterns, top to bottom.
pub fn scan(w: u32, h: u32, dark: &dyn Fn(u32, u32) -> bool) -> Vec<Mark> {
    let mut marks: Vec<Mark> = vec![];
    for y in 0..h {
        // one that ignores specks and one that does not: what looks like a speck after a wide gap
        // may be the first module of a finder
        let mut win = Window::default();
        let mut exact = Window::default();
        let mut last: Option<bool> = None;
        for x in 0..w {
            let d = dark(x, y);
            if last == Some(d) {
                win.r[6] += 1.0;
                exact.r[6] += 1.0;
                if x != w - 1 {
                    continue;
                }
            }
            if let Some(m) = [&win, &exact].iter().find(|k| k.fits()).map(|k| k.total() / 7.0) {
                if let Some(k) = confirm(x, y, m, w, h, dark, &marks) {
                    marks.push(k);
                }
            }
            last = Some(d);
            win.turn();
            exact.turn_exact();
        }
    }
    marks
}

fn confirm(
    x: u32,
    y: u32,
    m: f64,
    w: u32,
    h: u32,
    dark: &dyn Fn(u32, u32) -> bool,
    known: &[Mark],
) -> Option<Mark> {
    let (mut fx, mut fy, mut m) = (f64::from(x) - 3.5 * m, f64::from(y), m);
    if known.iter().any(|k| (k.x - fx).hypot(k.y - fy) < 7.0 * m) {
        return None;
    }
    let lo = |c: f64, m: f64| (c - 5.0 * m).max(0.0).round() as u32;
    let hi = |c: f64, m: f64, n: u32| ((c + 5.0 * m).round() as u32).min(n);
    let px = (fx.round() as u32).min(w - 1);
    let (_, ey, m2) = along((lo(fy, m)..hi(fy, m, h)).map(|v| (px, v)), dark, Some(m))?;
    fx = f64::from(px);
    fy = f64::from(ey) - 3.5 * m2;
    m = (m + m2) / 2.0;
    let py = (fy.round().max(0.0) as u32).min(h - 1);
    let (ex, _, m3) = along((lo(fx, m)..hi(fx, m, w)).map(|u| (u, py)), dark, Some(m))?;
    fy = f64::from(py);
    fx = f64::from(ex) - 3.5 * m3;
    m = (m + m3) / 2.0;
    let back = (5.0 * m).min(fx).min(fy).max(0.0);
    let (sx, sy) = ((fx - back).round() as u32, (fy - back).round() as u32);
    along(
        (sx..hi(fx, m, w)).zip(sy..hi(fy, m, h)),
        dark,
        None,
    )?;
    Some(Mark { x: fx, y: fy, m })
}

/// Can a plain scanner tell the true finder patterns (centre, module size) of a black and white
/// picture,
/// with nothing like another one beside them?  `modules`: the distance between the finder patterns
/// in modules, if the drawing is turned or distorted; then the scanner must also measure them well
/// enough to tell the version (a plain one measures along a line).
pub fn unambiguous(bw: &GrayImage, finders: &[Mark], modules: Option<f64>) -> bool {
    let raw = bw.as_raw();
    let w = bw.width();
    let dark = |x: u32, y: u32| raw[y as usize * w as usize + x as usize] < 128;
    let marks = scan(w, bw.height(), &dark);
    let is_true = |k: &Mark| finders.iter().any(|g| (k.x - g.x).hypot(k.y - g.y) < 1.0 * g.m);
    let close = |k: &Mark| finders.iter().any(|g| (k.x - g.x).hypot(k.y - g.y) < 9.0 * g.m);
    if std::env::var_os("VQ_LOG").is_some() {
        eprintln!("finders {finders:?}\nmarks {marks:?}");
    }
    let each_once = finders.iter().all(|f| {
        let m: Vec<_> = marks
            .iter()
            .filter(|k| (k.x - f.x).hypot(k.y - f.y) < 1.0 * f.m)
            .collect();
        m.len() == 1
            && modules.map_or(true, |d| {
                (d * (1.0 - f.m / m[0].m)).abs() < 1.2
                    && (m[0].x - f.x).abs().max((m[0].y - f.y).abs()) < 1.0 + 0.1 * f.m
            })
    });
    each_once && !marks.iter().any(|k| !is_true(k) && close(k))
}

/// The finder centres of an upright symbol with its corner at (x0, y0).
pub fn upright_finders(sym: &Symbol, x0: i64, y0: i64, scale: i64) -> Vec<Mark> {
    let (f, g) = (3.5, sym.size as f64 - 3.5);
    [(f, f), (g, f), (f, g)]
        .iter()
        .map(|&(u, v)| Mark {
            x: x0 as f64 + u * scale as f64,
            y: y0 as f64 + v * scale as f64,
            m: scale as f64,
        })
        .collect()
}
