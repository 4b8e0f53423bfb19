//! C15 (builder and pipeline) and C17 (purity).

use super::debug::Shown;
use super::image::*;
use super::matrix::ec;
use super::prepare::Noise;
use super::scene::*;
use crate::refqr::*;
use crate::run::*;
use anyhow::Error;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRInfo, QRLocation};
use bardecoder::util::Point;
use bardecoder::{Decoder, DecoderBuilder};
use image::{GrayImage, Luma, RgbaImage};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn hash_bytes(w: u32, h: u32, b: &[u8]) -> u64 {
    let mut s = DefaultHasher::new();
    (w, h, b).hash(&mut s);
    s.finish()
}

// ---------------------------------------------------------------- C15

#[derive(Debug, Clone, PartialEq)]
pub enum Event {
    Prepare { id: u8, source: u64 },
    Detect { id: u8, prepared: u64 },
    Extract { id: u8, prepared: u64, loc: String },
    Decode { id: u8, data: String },
}

type Log = Rc<RefCell<Vec<Event>>>;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Prep {
    Real(u8, u8),
    /// a picture of its own, or the source's red channel
    Mock { id: u8, own: bool },
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Find {
    Real,
    /// so many locations
    Mock { id: u8, count: u8 },
}

/// What a mock extractor does with the n-th location it is given (cycling).
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Yield {
    /// a valid symbol
    Symbol,
    /// a matrix of noise
    Noise,
    Fail,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Ext {
    Real,
    Mock { id: u8, yields: Vec<Yield> },
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Dec {
    Real,
    /// says what it was given; a failure for those of which the bit in `fail` is set, else a
    /// result, even from an error
    Mock { id: u8, fail: u8 },
    /// passes errors on
    Pass { id: u8 },
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Prepare(Prep),
    Detect(Find),
    Qr(Ext, Dec),
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Start {
    New,
    /// default_builder or default_builder_with_info
    Default,
    /// default_decoder or default_decoder_with_info; the operations are not used
    Ready,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C15Case {
    pub info: bool,
    pub start: Start,
    pub ops: Vec<Op>,
    /// call the setters in a chain where there are several
    pub chain: bool,
    pub sources: Vec<Shown>,
}

/// The result types.
pub trait Out: Sized + PartialEq + std::fmt::Debug + 'static {
    fn of(s: String) -> Self;
    fn real() -> Box<dyn Decode<QRData, Self, QRError>>;
    fn start() -> DecoderBuilder<RgbaImage, GrayImage, Self>;
    fn ready() -> Decoder<RgbaImage, GrayImage, Self>;
}

impl Out for String {
    fn of(s: String) -> Self {
        s
    }
    fn real() -> Box<dyn Decode<QRData, Self, QRError>> {
        Box::new(QRDecoder::new())
    }
    fn start() -> DecoderBuilder<RgbaImage, GrayImage, Self> {
        bardecoder::default_builder()
    }
    fn ready() -> Decoder<RgbaImage, GrayImage, Self> {
        bardecoder::default_decoder()
    }
}

impl Out for (String, QRInfo) {
    fn of(s: String) -> Self {
        let n = s.len() as u32;
        let i = QRInfo { version: n, ec_level: ec(LEVELS[n as usize % 4]), total_data: 3 * n, errors: n / 2 };
        (s, i)
    }
    fn real() -> Box<dyn Decode<QRData, Self, QRError>> {
        Box::new(QRDecoderWithInfo::new())
    }
    fn start() -> DecoderBuilder<RgbaImage, GrayImage, Self> {
        bardecoder::default_builder_with_info()
    }
    fn ready() -> Decoder<RgbaImage, GrayImage, Self> {
        bardecoder::default_decoder_with_info()
    }
}

struct Mock<T> {
    what: T,
    log: Log,
}

impl Prepare<RgbaImage, GrayImage> for Mock<Prep> {
    fn prepare(&self, s: &RgbaImage) -> GrayImage {
        let Prep::Mock { id, own } = self.what else { unreachable!() };
        let (w, h) = s.dimensions();
        self.log.borrow_mut().push(Event::Prepare { id, source: hash_bytes(w, h, s.as_raw()) });
        if own {
            let mut r = Noise(u64::from(id));
            GrayImage::from_fn(60, 50, |_, _| Luma([if r.next() & 1 == 0 { 0 } else { 255 }]))
        } else {
            GrayImage::from_fn(w, h, |x, y| Luma([if s.get_pixel(x, y).0[0] < 128 { 0 } else { 255 }]))
        }
    }
}

impl Detect<GrayImage> for Mock<Find> {
    fn detect(&self, p: &GrayImage) -> Vec<Location> {
        let Find::Mock { id, count } = self.what else { unreachable!() };
        let prepared = hash_bytes(p.width(), p.height(), p.as_raw());
        self.log.borrow_mut().push(Event::Detect { id, prepared });
        let mut r = Noise(prepared ^ u64::from(id));
        (0..count)
            .map(|_| {
                let mut f = |top: u32| f64::from((r.next() % u64::from(top.max(1)) * 4) as u32) / 4.0;
                let (x, y) = (f(p.width()), f(p.height()));
                let version = 1 + f(3) as u32;
                let module_size = 1.0 + f(5);
                let side = f64::from(version * 4 + 10) * module_size;
                Location::QR(QRLocation {
                    top_left: Point { x, y },
                    top_right: Point { x: x + side, y },
                    bottom_left: Point { x, y: y + side },
                    module_size,
                    version,
                })
            })
            .collect()
    }
}

struct MockExt {
    id: u8,
    yields: Vec<Yield>,
    n: RefCell<usize>,
    log: Log,
}

impl Extract<GrayImage, QRLocation, QRData, QRError> for MockExt {
    fn extract(&self, p: &GrayImage, loc: QRLocation) -> Result<QRData, QRError> {
        let prepared = hash_bytes(p.width(), p.height(), p.as_raw());
        self.log.borrow_mut().push(Event::Extract { id: self.id, prepared, loc: format!("{loc:?}") });
        let n = self.n.replace_with(|n| *n + 1);
        let v = loc.version.clamp(1, 40) as usize;
        let name = format!("{}.{n} {}", self.id, loc.top_left.x);
        match self.yields[n % self.yields.len()] {
            Yield::Symbol => {
                let segs = vec![Seg::Byte(name.into_bytes())];
                let s = Symbol::from_segs(&segs, v, Level::L, (n % 8) as u8);
                Ok(QRData::new(s.pixels(), loc.version))
            }
            Yield::Noise => {
                let mut r = Noise(n as u64 ^ prepared);
                let side = v * 4 + 17;
                let px = (0..side * side).map(|_| if r.next() & 1 == 0 { 0 } else { 255 }).collect();
                Ok(QRData::new(px, loc.version))
            }
            Yield::Fail => Err(QRError { msg: format!("not extracted: {name}") }),
        }
    }
}

struct MockDec {
    dec: Dec,
    n: RefCell<usize>,
    log: Log,
}

impl<R: Out> Decode<QRData, R, QRError> for MockDec {
    fn decode(&self, data: Result<QRData, QRError>) -> Result<R, QRError> {
        let d = format!("{data:?}");
        let n = self.n.replace_with(|n| *n + 1);
        match self.dec {
            Dec::Mock { id, fail } => {
                self.log.borrow_mut().push(Event::Decode { id, data: d.clone() });
                let name = format!("{id}.{n} {:x}", hash_bytes(0, 0, d.as_bytes()));
                if fail >> (n % 8) & 1 == 1 {
                    Err(QRError { msg: format!("not decoded: {name}") })
                } else {
                    Ok(R::of(name))
                }
            }
            Dec::Pass { id } => {
                self.log.borrow_mut().push(Event::Decode { id, data: d.clone() });
                data.map(|_| R::of(format!("{id}.{n}")))
            }
            Dec::Real => unreachable!(),
        }
    }
}

fn prep_of(p: Prep, log: &Log) -> Box<dyn Prepare<RgbaImage, GrayImage>> {
    match p {
        Prep::Real(bs, mean) => Box::new(BlockedMean::new(bs.into(), mean.into())),
        what => Box::new(Mock { what, log: log.clone() }),
    }
}

fn find_of(f: Find, log: &Log) -> Box<dyn Detect<GrayImage>> {
    match f {
        Find::Real => Box::new(LineScan::new()),
        what => Box::new(Mock { what, log: log.clone() }),
    }
}

fn ext_of(e: &Ext, log: &Log) -> Box<dyn Extract<GrayImage, QRLocation, QRData, QRError>> {
    match e {
        Ext::Real => Box::new(QRExtractor::new()),
        Ext::Mock { id, yields } => Box::new(MockExt {
            id: *id,
            yields: yields.clone(),
            n: RefCell::new(0),
            log: log.clone(),
        }),
    }
}

fn dec_of<R: Out>(d: Dec, log: &Log) -> Box<dyn Decode<QRData, R, QRError>> {
    match d {
        Dec::Real => R::real(),
        dec => Box::new(MockDec { dec, n: RefCell::new(0), log: log.clone() }),
    }
}

/// The components as the history of calls leaves them.
#[derive(Debug, Clone)]
struct Model {
    prepare: Option<Prep>,
    detect: Option<Find>,
    qr: Option<(Ext, Dec)>,
}

fn model(c: &C15Case) -> Model {
    let mut m = match c.start {
        Start::New => Model { prepare: None, detect: None, qr: None },
        _ => Model {
            prepare: Some(Prep::Real(5, 7)),
            detect: Some(Find::Real),
            qr: Some((Ext::Real, Dec::Real)),
        },
    };
    if c.start != Start::Ready {
        for o in &c.ops {
            match o {
                Op::Prepare(p) => m.prepare = Some(*p),
                Op::Detect(d) => m.detect = Some(*d),
                Op::Qr(e, d) => m.qr = Some((e.clone(), *d)),
            }
        }
    }
    m
}

type Builder<R> = DecoderBuilder<RgbaImage, GrayImage, R>;

fn apply<'a, R: Out>(b: &'a mut Builder<R>, o: &Op, log: &Log) -> &'a mut Builder<R> {
    match o {
        Op::Prepare(p) => b.prepare(prep_of(*p, log)),
        Op::Detect(d) => b.detect(find_of(*d, log)),
        Op::Qr(e, d) => b.qr(ext_of(e, log), dec_of(*d, log)),
    }
}

fn built<R: Out>(c: &C15Case, log: &Log) -> Decoder<RgbaImage, GrayImage, R> {
    let mut b = match c.start {
        Start::Ready => return R::ready(),
        Start::New => DecoderBuilder::new(),
        Start::Default => R::start(),
    };
    if c.chain {
        let mut r = &mut b;
        for o in &c.ops {
            r = apply(r, o, log);
        }
    } else {
        for o in &c.ops {
            apply(&mut b, o, log);
        }
    }
    b.build()
}

type Outcome<R> = Vec<Result<R, QRError>>;

/// The pipeline put together by hand.
struct Hand<R> {
    prepare: Box<dyn Prepare<RgbaImage, GrayImage>>,
    detect: Box<dyn Detect<GrayImage>>,
    extract: Box<dyn Extract<GrayImage, QRLocation, QRData, QRError>>,
    decode: Box<dyn Decode<QRData, R, QRError>>,
}

impl<R: Out> Hand<R> {
    fn run(&self, img: &RgbaImage) -> Outcome<R> {
        let p = self.prepare.prepare(img);
        self.detect
            .detect(&p)
            .into_iter()
            .map(|Location::QR(l)| self.decode.decode(self.extract.extract(&p, l)))
            .collect()
    }
}

fn unwrapped<R>(v: Vec<Result<R, Error>>) -> Result<Outcome<R>, String> {
    v.into_iter()
        .map(|r| match r {
            Ok(r) => Ok(Ok(r)),
            Err(e) => match e.downcast::<QRError>() {
                Ok(e) => Ok(Err(e)),
                Err(e) => Err(format!("an error that is no QRError: {e}")),
            },
        })
        .collect()
}

/// Events of one kind, in order.
fn only<'a>(log: &'a [Event], kind: usize) -> Vec<(usize, &'a Event)> {
    let k = |e: &Event| match e {
        Event::Prepare { .. } => 0,
        Event::Detect { .. } => 1,
        Event::Extract { .. } => 2,
        Event::Decode { .. } => 3,
    };
    log.iter().enumerate().filter(|(_, e)| k(e) == kind).collect()
}

fn compare_events(got: &[Event], want: &[Event]) -> Result<(), String> {
    const NAMES: [&str; 4] = ["prepare", "detect", "extract", "decode"];
    for k in 0..4 {
        let (g, w) = (only(got, k), only(want, k));
        if g.len() != w.len() {
            return Err(format!("{} called {} times instead of {}", NAMES[k], g.len(), w.len()));
        }
        for (i, (g, w)) in g.iter().zip(&w).enumerate() {
            if g.1 != w.1 {
                return Err(format!("call {i}: {:?} instead of {:?}", g.1, w.1));
            }
        }
        // whatever the interleaving, every stage works on what the one before it made
        if k > 0 {
            let before = only(got, k - 1);
            for (i, g) in g.iter().enumerate() {
                let b = if k == 3 { before.get(i) } else { before.first() };
                if b.is_some_and(|b| b.0 > g.0) {
                    return Err(format!("{} before {}", NAMES[k], NAMES[k - 1]));
                }
            }
        }
    }
    Ok(())
}

pub struct C15;

impl C15 {
    fn run<R: Out>(&self, c: &C15Case, ctx: &mut Ctx) -> Result<(), String> {
        let log: Log = Rc::default();
        let m = model(c);
        ctx.comparisons += 1;
        let made = catch_unwind(AssertUnwindSafe(|| built::<R>(c, &log)));
        let (Some(p), Some(d), Some((e, k))) = (m.prepare, m.detect, m.qr.clone()) else {
            ctx.label("component missing");
            ctx.nontrivial();
            let _ = last_panic();
            return match made {
                Ok(_) => Err("built a decoder although a component is missing".into()),
                Err(_) => Ok(()),
            };
        };
        let Ok(decoder) = made else {
            return Err(format!("building a complete decoder panics: {:?}", last_panic()));
        };
        if !log.borrow().is_empty() {
            return Err(format!("building runs components: {:?}", log.borrow()));
        }
        let mine: Log = Rc::default();
        let hand: Hand<R> = Hand {
            prepare: prep_of(p, &mine),
            detect: find_of(d, &mine),
            extract: ext_of(&e, &mine),
            decode: dec_of(k, &mine),
        };
        ctx.label(format!("start: {:?}", c.start));
        for s in &c.sources {
            let img = s.picture();
            save_debug(&img);
            mine.borrow_mut().clear();
            log.borrow_mut().clear();
            let Ok(want) = catch_unwind(AssertUnwindSafe(|| hand.run(&img))) else {
                let _ = last_panic();
                ctx.exclude("a component panics on its own");
                return Ok(());
            };
            let got = unwrapped(decoder.decode(&img))?;
            ctx.comparisons += 1 + want.len() as u64;
            compare_events(&log.borrow(), &mine.borrow())?;
            if got != want {
                return Err(format!("{got:?} instead of {want:?}"));
            }
            if !want.is_empty() {
                ctx.nontrivial();
            }
            if want.len() > 1 {
                ctx.label("several results");
            }
            if want.iter().any(|r| r.is_ok()) && want.iter().any(|r| r.is_err()) {
                ctx.label("results and errors");
            }
        }
        Ok(())
    }
}

fn op() -> BoxedStrategy<Op> {
    let prep = prop_oneof![
        1 => (1u8..12, 1u8..9).prop_map(|(a, b)| Prep::Real(a, b)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(id, own)| Prep::Mock { id, own }),
    ];
    let find = prop_oneof![
        1 => Just(Find::Real),
        3 => (any::<u8>(), 0u8..7).prop_map(|(id, count)| Find::Mock { id, count }),
    ];
    let y = prop_oneof![Just(Yield::Symbol), Just(Yield::Noise), Just(Yield::Fail)];
    let ext = prop_oneof![
        1 => Just(Ext::Real),
        3 => (any::<u8>(), prop::collection::vec(y, 1..6)).prop_map(|(id, yields)| Ext::Mock { id, yields }),
    ];
    let dec = prop_oneof![
        2 => Just(Dec::Real),
        2 => any::<(u8, u8)>().prop_map(|(id, fail)| Dec::Mock { id, fail }),
        1 => any::<u8>().prop_map(|id| Dec::Pass { id }),
    ];
    prop_oneof![
        prep.prop_map(Op::Prepare),
        find.prop_map(Op::Detect),
        (ext, dec).prop_map(|(e, d)| Op::Qr(e, d))
    ]
    .boxed()
}

fn shown(max: u32) -> BoxedStrategy<Shown> {
    let side = || 12u8..50;
    let code = (1usize..5, prop::sample::select(LEVELS.to_vec()))
        .prop_flat_map(|(v, l)| code_of(v, l, None))
        .boxed();
    prop_oneof![
        3 => (code, 3u8..6, [side(), side(), side(), side()], 0u8..4)
            .prop_map(|(code, scale, white, quarter)| Shown::Code { code, scale, white, quarter }),
        2 => Scene::likely(max).prop_map(Shown::Scene),
        1 => group().prop_map(Shown::Group),
        1 => Scene::strategy(max).prop_map(Shown::Scene),
    ]
    .boxed()
}

impl Prop for C15 {
    type Case = C15Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Histories of up to 8 builder calls on an empty builder or one of the default ones, setting real components or recording stand-ins (which yield symbols, noise or errors and recover from errors), then up to three pictures through the decoder; the same components put together by hand are the oracle for results, errors and what every component is handed. Non-trivial: a component is missing when building, or there was at least one result."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(60_000, 1_500_000)
    }
    fn strategy(&self, idx: usize, _: Tier) -> BoxedStrategy<C15Case> {
        let start = match idx % 8 {
            0..=3 => Start::New,
            7 => Start::Ready,
            _ => Start::Default,
        };
        // most of the empty builders get all components, in any order, and then some
        let ops = prop::collection::vec(op(), 0..9);
        let ops = if idx % 4 < 2 {
            (ops, prop::collection::vec(op(), 24))
                .prop_map(|(mut ops, spare)| {
                    for k in 0..3 {
                        let is = |o: &&Op| match o {
                            Op::Prepare(_) => k == 0,
                            Op::Detect(_) => k == 1,
                            Op::Qr(..) => k == 2,
                        };
                        if !ops.iter().any(|o| is(&o)) {
                            ops.extend(spare.iter().find(is).cloned());
                        }
                    }
                    ops
                })
                .boxed()
        } else {
            ops.boxed()
        };
        (any::<bool>(), ops, any::<bool>(), prop::collection::vec(shown(170), 1..4))
            .prop_map(move |(info, ops, chain, sources)| C15Case {
                info,
                start,
                ops: if start == Start::Ready { vec![] } else { ops },
                chain,
                sources,
            })
            .boxed()
    }
    fn check(&self, c: &C15Case, ctx: &mut Ctx) -> Result<(), String> {
        if c.info {
            self.run::<(String, QRInfo)>(c, ctx)
        } else {
            self.run::<String>(c, ctx)
        }
    }
}

// ---------------------------------------------------------------- C17

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct C17Case {
    pub pictures: Vec<Shown>,
    /// which of them (cycling) are decoded one after another by one decoder
    pub history: Vec<u8>,
    /// the order in which another process does
    pub elsewhere: Vec<u8>,
}

fn lines(img: &RgbaImage) -> (Vec<String>, Vec<String>) {
    (
        decode_info(img).iter().map(|r| format!("{r:?}")).collect(),
        decode_plain(img).iter().map(|r| format!("{r:?}")).collect(),
    )
}

/// The other process's part: decodes the pictures of the case in the order given there.
pub fn elsewhere() -> i32 {
    let c: C17Case = serde_json::from_reader(std::io::stdin()).expect("case");
    let pics: Vec<RgbaImage> = c.pictures.iter().map(Shown::picture).collect();
    let with = bardecoder::default_decoder_with_info::<RgbaImage>();
    let r = catch_unwind(AssertUnwindSafe(|| {
        c.elsewhere
            .iter()
            .map(|i| {
                let r = flat(with.decode(&pics[*i as usize % pics.len()]));
                r.iter().map(|r| format!("{r:?}")).collect()
            })
            .collect::<Vec<Vec<String>>>()
    }));
    match r {
        Ok(v) => {
            println!("{}", serde_json::to_string(&v).unwrap());
            0
        }
        Err(_) => 1,
    }
}

pub struct C17;

impl Prop for C17 {
    type Case = C17Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Histories of 3 to 12 decodings of 2 to 4 pictures (of codes of one geometry with different contents, of several codes, of anything) by one decoder; every result is compared with that of a decoder of its own, the last ones also with those of three concurrent threads and of another process that decodes in another order; pictures keep their bytes. Non-trivial: at least two pictures with different non-empty results."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(5_000, 120_000)
    }
    fn strategy(&self, idx: usize, t: Tier) -> BoxedStrategy<C17Case> {
        let max = t.pick(220, 500);
        let pictures = if idx % 2 == 0 {
            // same version, size and place, other contents
            let side = || 8u8..40;
            (1usize..6, 3u8..6, [side(), side(), side(), side()])
                .prop_flat_map(|(v, scale, white)| {
                    let one = (prop::sample::select(LEVELS.to_vec()), 0u8..8)
                        .prop_flat_map(move |(l, m)| code_of(v, l, Some(m)))
                        .prop_map(move |code| Shown::Code { code, scale, white, quarter: 0 });
                    prop::collection::vec(one, 2..5)
                })
                .boxed()
        } else {
            let one = prop_oneof![2 => shown(max), 2 => Scene::likely(max).prop_map(Shown::Scene), 2 => group().prop_map(Shown::Group)];
            prop::collection::vec(one, 2..5).boxed()
        };
        (
            pictures,
            prop::collection::vec(any::<u8>(), 3..13),
            prop::collection::vec(any::<u8>(), 2..8),
        )
            .prop_map(|(pictures, history, elsewhere)| C17Case { pictures, history, elsewhere })
            .boxed()
    }
    fn check(&self, c: &C17Case, ctx: &mut Ctx) -> Result<(), String> {
        let pics: Vec<RgbaImage> = c.pictures.iter().map(Shown::picture).collect();
        let n = pics.len();
        let kept = pics.clone();
        let one = bardecoder::default_decoder_with_info::<RgbaImage>();
        let two = bardecoder::default_decoder::<RgbaImage>();
        let mut seen: Vec<Option<(Vec<String>, Vec<String>)>> = vec![None; n];
        for (k, i) in c.history.iter().enumerate() {
            let i = *i as usize % n;
            let a: Vec<String> = flat(one.decode(&pics[i])).iter().map(|r| format!("{r:?}")).collect();
            let b: Vec<String> = flat(two.decode(&pics[i])).iter().map(|r| format!("{r:?}")).collect();
            ctx.comparisons += 2;
            if let Some(s) = &seen[i] {
                if *s != (a.clone(), b.clone()) {
                    return Err(format!("decoding {k} of picture {i} gives {a:?} / {b:?} instead of {s:?}"));
                }
            }
            let own = lines(&pics[i]);
            if own != (a.clone(), b.clone()) {
                return Err(format!(
                    "decoding {k} of picture {i} gives {a:?} / {b:?}, a decoder of its own {own:?}"
                ));
            }
            seen[i] = Some(own);
        }
        for (i, s) in seen.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(lines(&pics[i]));
            }
        }
        let seen: Vec<_> = seen.into_iter().flatten().collect();
        let mut kinds: Vec<_> = seen.iter().filter(|s| !s.0.is_empty()).collect();
        kinds.sort();
        kinds.dedup();
        if kinds.len() > 1 {
            ctx.nontrivial();
        }
        if seen.iter().any(|s| s.0.len() > 1) {
            ctx.label("several results in a picture");
        }
        if kept != pics {
            return Err("a picture was changed".into());
        }
        // on other threads, at the same time
        let threads = std::thread::scope(|s| {
            let t: Vec<_> = (0..3usize)
                .map(|t| {
                    let pics = &pics;
                    s.spawn(move || {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            (0..n).map(|k| ((k + t) % n, lines(&pics[(k + t) % n]))).collect::<Vec<_>>()
                        }));
                        r.map_err(|_| last_panic())
                    })
                })
                .collect();
            t.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>()
        });
        for t in threads {
            for (i, r) in t.map_err(|p| format!("panic on another thread: {p:?}"))? {
                ctx.comparisons += 2;
                if r != seen[i] {
                    return Err(format!("picture {i} gives {r:?} on another thread, {:?} on this", seen[i]));
                }
            }
        }
        // in another process
        let mut child = std::process::Command::new(std::env::current_exe().expect("own path"))
            .arg("elsewhere")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("another process");
        let mut tx = child.stdin.take().expect("pipe");
        tx.write_all(&serde_json::to_vec(c).expect("case")).expect("pipe");
        drop(tx);
        let out = child.wait_with_output().expect("another process");
        let Ok(v) = serde_json::from_slice::<Vec<Vec<String>>>(&out.stdout) else {
            return Err(format!("another process fails: {:?}", out.status));
        };
        for (r, i) in v.iter().zip(&c.elsewhere) {
            ctx.comparisons += 1;
            let i = *i as usize % n;
            if *r != seen[i].0 {
                return Err(format!("picture {i} gives {r:?} in another process, {:?} in this", seen[i].0));
            }
        }
        Ok(())
    }
}
