//! C01 to C06: the decode component on module matrices.

use crate::gens::*;
use crate::refqr::*;
use crate::run::*;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::{ECLevel, QRData, QRError, QRInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn ec(level: Level) -> ECLevel {
    match level {
        Level::L => ECLevel::LOW,
        Level::M => ECLevel::MEDIUM,
        Level::Q => ECLevel::QUARTILE,
        Level::H => ECLevel::HIGH,
    }
}

pub fn plain(pixels: &[u8], version: usize) -> Result<String, QRError> {
    QRDecoder::new().decode(Ok(QRData::new(pixels.to_vec(), version as u32)))
}

pub fn with_info(pixels: &[u8], version: usize) -> Result<(String, QRInfo), QRError> {
    QRDecoderWithInfo::new().decode(Ok(QRData::new(pixels.to_vec(), version as u32)))
}

fn short(s: &str) -> String {
    let n = s.chars().count();
    if n > 60 {
        format!("{:?}... ({n} characters)", s.chars().take(60).collect::<String>())
    } else {
        format!("{s:?}")
    }
}

fn show(r: &Result<String, QRError>) -> String {
    match r {
        Ok(s) => format!("text {}", short(s)),
        Err(e) => format!("error {:?}", short(&e.msg)),
    }
}

pub fn expect_text(got: &Result<String, QRError>, want: &str) -> Result<(), String> {
    match got {
        Ok(s) if s == want => Ok(()),
        Ok(s) => {
            let at = s
                .chars()
                .zip(want.chars())
                .position(|(a, b)| a != b)
                .unwrap_or(s.chars().count().min(want.chars().count()));
            Err(format!(
                "decoded {}, expected {}; first difference at character {at}",
                short(s),
                short(want)
            ))
        }
        Err(_) => Err(format!("{}, expected text {}", show(got), short(want))),
    }
}

fn expect_ref(got: &Result<String, QRError>, want: &Result<RefDecoded, RefError>) -> Result<(), String> {
    match (got, want) {
        (_, Ok(w)) => expect_text(got, &w.text),
        (Ok(s), Err(e)) => Err(format!("returned text {} where {e:?} is due", short(s))),
        (Err(_), Err(_)) => Ok(()),
    }
}

fn dark(pixels: &[u8]) -> Vec<bool> {
    pixels.iter().map(|&p| p == 0).collect()
}

pub fn class_labels(ctx: &mut Ctx, version: usize, level: Level) {
    ctx.label(format!(
        "version {}",
        match version {
            1..=9 => "1-9",
            10..=26 => "10-26",
            _ => "27-40",
        }
    ));
    ctx.label(format!("level {level:?}"));
}

// ---------------------------------------------------------------- C01

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SymCase {
    pub version: usize,
    pub level: Level,
    pub mask: u8,
    pub segs: Vec<SegSpec>,
}

pub fn sym_case(idx: usize) -> BoxedStrategy<SymCase> {
    let (version, level, mask) = vlm(idx);
    seg_specs(data_codewords(version, level))
        .prop_map(move |segs| SymCase {
            version,
            level,
            mask,
            segs,
        })
        .boxed()
}

impl SymCase {
    pub fn built(&self) -> (Vec<Seg>, String) {
        let segs = build(&self.segs, self.version, self.level);
        let t = text(&segs).expect("generator makes decodable segments");
        (segs, t)
    }
}

pub struct C01;

impl Prop for C01 {
    type Case = SymCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "All 1280 (version, level, mask) in turn, each with generated sequences of numeric, alphanumeric and byte segments, from empty to filled to the last bit; the module matrix of the reference encoder is decoded and compared with the encoded text. Non-trivial: the text has at least one character."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Byte segments holding 0xC3 are UTF-8 and all others ISO-8859-1, which is the library's documented-by-code rule.".into()]
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(128_000, 2_560_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<SymCase> {
        sym_case(idx)
    }
    fn check(&self, c: &SymCase, ctx: &mut Ctx) -> Result<(), String> {
        let (segs, want) = c.built();
        class_labels(ctx, c.version, c.level);
        let used: usize = segs.iter().map(|s| s.bits(c.version)).sum();
        let left = data_codewords(c.version, c.level) * 8 - used;
        ctx.label(match left {
            0 => "full, no terminator",
            1..=3 => "full, shortened terminator",
            4..=11 => "full, whole terminator",
            _ => "with pad codewords",
        });
        ctx.label(format!("{} segments", segs.len()));
        if want.len() > 3000 && segs.len() > 1 {
            ctx.label("over 3000 characters in several segments");
        }
        for s in &segs {
            if s.is_empty() {
                ctx.label("has empty segment");
            }
        }
        if !want.is_empty() {
            ctx.nontrivial();
        }
        let sym = Symbol::from_segs(&segs, c.version, c.level, c.mask);
        let px = sym.pixels();
        ctx.comparisons += 2;
        expect_text(&plain(&px, c.version), &want)?;
        expect_text(&with_info(&px, c.version).map(|r| r.0), &want)
            .map_err(|e| format!("with information: {e}"))
    }
}

// ---------------------------------------------------------------- C02

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DamagedCase {
    pub sym: SymCase,
    pub damage: Damage,
}

pub struct C02;

impl Prop for C02 {
    type Case = DamagedCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Symbols as in C01 with 0..=t damaged codewords in every block (t: the capacity of ISO/IEC 18004 table 9), positions and bit patterns generated, every second case with some block at exactly t. The decoded text must be the encoded one. Non-trivial: at least one damaged codeword."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(51_200, 1_280_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<DamagedCase> {
        let (v, l, _) = vlm(idx);
        (sym_case(idx), repairable_damage(v, l))
            .prop_map(|(sym, damage)| DamagedCase { sym, damage })
            .boxed()
    }
    fn check(&self, c: &DamagedCase, ctx: &mut Ctx) -> Result<(), String> {
        let (segs, want) = c.sym.built();
        let (v, l) = (c.sym.version, c.sym.level);
        class_labels(ctx, v, l);
        let bl = blocks(v, l);
        let worst = c.damage.iter().map(|d| d.len()).max().unwrap_or(0);
        assert!(worst <= bl.t);
        ctx.label(if worst == bl.t {
            "some block at capacity"
        } else if worst > 0 {
            "below capacity"
        } else {
            "undamaged"
        });
        if worst > 0 {
            ctx.nontrivial();
        }
        let mut sym = Symbol::from_segs(&segs, v, l, c.sym.mask);
        apply_damage(&mut sym, &c.damage);
        let px = sym.pixels();
        ctx.comparisons += 2;
        expect_text(&plain(&px, v), &want)?;
        expect_text(&with_info(&px, v).map(|r| r.0), &want)
            .map_err(|e| format!("with information: {e}"))
    }
}

// ---------------------------------------------------------------- C03

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Noise {
    None,
    /// xor single codewords
    Xor(Vec<(u8, u8)>),
    /// replace the whole block
    Random(Vec<u8>),
    /// xor a multiple of the product of k roots: the k syndromes from number `from` on vanish
    ShortCode {
        k: u8,
        #[serde(default)]
        from: u8,
        data: Vec<u8>,
        shift: u8,
        extra: Vec<(u8, u8)>,
    },
    /// replace the block by another valid block with some errors
    Other { data: Vec<u8>, errors: Vec<(u8, u8)> },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct NoisyCase {
    pub sym: SymCase,
    pub noise: Vec<Noise>,
}

fn noise(len: usize, nec: usize, t: usize) -> BoxedStrategy<Noise> {
    let d = len - nec;
    prop_oneof![
        4 => Just(Noise::None),
        3 => (1..=t.max(1)).prop_flat_map(move |k| block_damage(len, k)).prop_map(Noise::Xor),
        6 => (t + 1..=(t + 3).min(len)).prop_flat_map(move |k| block_damage(len, k)).prop_map(Noise::Xor),
        2 => (t + 1..=len).prop_flat_map(move |k| block_damage(len, k)).prop_map(Noise::Xor),
        2 => prop::collection::vec(any::<u8>(), len).prop_map(Noise::Random),
        6 => (1..nec, any::<u8>(), prop_oneof![2 => Just(0u8), 1 => Just(255u8), 1 => any::<u8>()]).prop_flat_map(move |(k, shift, from)| (
                prop::collection::vec(any::<u8>(), 1..=(len - k).min(4)),
                prop_oneof![2 => Just(0usize), 1 => 0..=t],
            ).prop_flat_map(move |(data, e)| block_damage(len, e).prop_map(move |extra|
                Noise::ShortCode { k: k as u8, from: from.min((nec - k) as u8), data: data.clone(), shift, extra }))),
        2 => (prop::collection::vec(any::<u8>(), d), 0..=t + 2)
            .prop_flat_map(move |(data, e)| block_damage(len, e.min(len)).prop_map(move |errors|
                Noise::Other { data: data.clone(), errors })),
    ]
    .boxed()
}

fn noisy_case(idx: usize) -> BoxedStrategy<NoisyCase> {
    let (v, l, _) = vlm(idx);
    let bl = blocks(v, l);
    let n = bl.data.len();
    let per: Vec<_> = bl
        .data
        .iter()
        .map(|&d| noise(d + bl.ec, bl.ec, bl.t))
        .collect();
    let per2 = per.clone();
    // noise in one block only, or in all of them
    let noises = prop_oneof![
        (0..n).prop_flat_map(move |b| per[b].clone().prop_map(move |x| {
            let mut v = vec![Noise::None; n];
            v[b] = x;
            v
        })),
        per2,
    ];
    (sym_case(idx), noises)
        .prop_map(|(sym, noise)| NoisyCase { sym, noise })
        .boxed()
}

impl NoisyCase {
    fn symbol(&self, ctx: &mut Ctx) -> Symbol {
        let (v, l) = (self.sym.version, self.sym.level);
        let (segs, _) = self.sym.built();
        let mut sym = Symbol::from_segs(&segs, v, l, self.sym.mask);
        let bl = blocks(v, l);
        let order = interleave_order(&bl);
        let mut at: Vec<Vec<usize>> = bl.data.iter().map(|d| vec![0; d + bl.ec]).collect();
        for (k, (b, i)) in order.iter().enumerate() {
            at[*b][*i] = k;
        }
        let lay = layout(v);
        for (b, n) in self.noise.iter().enumerate() {
            let len = at[b].len();
            let mut x = vec![0u8; len];
            let xor = |x: &mut Vec<u8>, e: &Vec<(u8, u8)>| {
                for &(i, v) in e {
                    x[i as usize] ^= v;
                }
            };
            // the block as it is, for the noises that replace it
            let current = |sym: &Symbol, i: usize| {
                let mut cw = 0u8;
                for bit in 0..8 {
                    let (px, py) = lay.order[at[b][i] * 8 + bit];
                    cw = (cw << 1) | u8::from(sym.get(px, py) ^ mask_bit(self.sym.mask, px, py));
                }
                cw
            };
            match n {
                Noise::None => {}
                Noise::Xor(e) => {
                    ctx.label("noise: xor");
                    xor(&mut x, e)
                }
                Noise::Random(r) => {
                    ctx.label("noise: random block");
                    for i in 0..len {
                        x[i] = r[i] ^ current(&sym, i);
                    }
                }
                Noise::ShortCode { k, from, data, shift, extra } => {
                    ctx.label(if *from == 0 {
                        "noise: first syndromes vanish"
                    } else {
                        "noise: later syndromes vanish"
                    });
                    let mut w = data.clone();
                    w.extend(rs_ecc(data, *k as usize));
                    let room = len - w.len();
                    let s = *shift as usize % (room + 1);
                    for (i, c) in w.iter().enumerate() {
                        let p = len - s - w.len() + i;
                        // moves the roots from 0.. to from..
                        let turn = gf_pow((255 - *from as usize) * (len - 1 - p));
                        x[p] ^= gf_mul(*c, turn);
                    }
                    xor(&mut x, extra);
                }
                Noise::Other { data, errors } => {
                    ctx.label("noise: near another valid block");
                    let mut w = data.clone();
                    w.extend(rs_ecc(data, bl.ec));
                    for i in 0..len {
                        x[i] = w[i] ^ current(&sym, i);
                    }
                    xor(&mut x, errors);
                }
            }
            for i in 0..len {
                for bit in 0..8 {
                    if (x[i] >> (7 - bit)) & 1 == 1 {
                        let (px, py) = lay.order[at[b][i] * 8 + bit];
                        sym.dark[py * lay.size + px] ^= true;
                    }
                }
            }
        }
        sym
    }
}

pub struct C03;

impl Prop for C03 {
    type Case = NoisyCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Symbols as in C01 with noise of any weight in one or all blocks: t+1 and more damaged codewords, random blocks, errors of which k syndromes in a row vanish (all k, the first ones, the last ones or any), blocks near another valid block. Text and failure must agree with the bounded-distance reference decoder. Non-trivial: some block is beyond repair by the reference decoder, so that an error is due."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(38_400, 1_280_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<NoisyCase> {
        noisy_case(idx)
    }
    fn check(&self, c: &NoisyCase, ctx: &mut Ctx) -> Result<(), String> {
        class_labels(ctx, c.sym.version, c.sym.level);
        let sym = c.symbol(ctx);
        let want = ref_decode(&sym.dark, c.sym.version);
        match &want {
            Ok(_) => ctx.label("repairable"),
            Err(RefError::Uncorrectable(_)) => {
                ctx.label("beyond repair");
                ctx.nontrivial();
            }
            Err(RefError::Payload(_)) => ctx.label("valid blocks, malformed payload"),
            Err(RefError::Format) => unreachable!(),
        }
        let px = sym.pixels();
        ctx.comparisons += 2;
        expect_ref(&plain(&px, c.sym.version), &want)?;
        expect_ref(&with_info(&px, c.sym.version).map(|r| r.0), &want)
            .map_err(|e| format!("with information: {e}"))
    }
}

// ---------------------------------------------------------------- C04

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum InfoCase {
    Repairable(DamagedCase),
    Noisy(NoisyCase),
}

pub struct C04;

impl Prop for C04 {
    type Case = InfoCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Damaged symbols as in C02 (three quarters) and C03: version, level, number of data bits and number of wrong bits must be those of the reference decoder, and the decoders with and without information must agree on text or failure. Non-trivial: decodable with at least one wrong bit."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(25_600, 640_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<InfoCase> {
        let (v, l, _) = vlm(idx);
        prop_oneof![
            3 => (sym_case(idx), repairable_damage(v, l))
                .prop_map(|(sym, damage)| InfoCase::Repairable(DamagedCase { sym, damage })),
            1 => noisy_case(idx).prop_map(InfoCase::Noisy),
        ]
        .boxed()
    }
    fn check(&self, c: &InfoCase, ctx: &mut Ctx) -> Result<(), String> {
        let (sym, flipped) = match c {
            InfoCase::Repairable(d) => {
                let (segs, _) = d.sym.built();
                let mut s = Symbol::from_segs(&segs, d.sym.version, d.sym.level, d.sym.mask);
                apply_damage(&mut s, &d.damage);
                let n = d.damage.iter().flatten().map(|e| e.1.count_ones()).sum::<u32>();
                (s, Some(n))
            }
            InfoCase::Noisy(n) => (n.symbol(ctx), None),
        };
        let v = sym.version;
        class_labels(ctx, v, sym.level);
        let want = ref_decode(&sym.dark, v);
        let px = sym.pixels();
        let (p, i) = (plain(&px, v), with_info(&px, v));
        ctx.comparisons += 3;
        match (&p, &i) {
            (Ok(a), Ok(b)) if *a == b.0 => {}
            (Err(a), Err(b)) if a == b => {}
            _ => {
                return Err(format!(
                    "without information: {}, with information: {}",
                    show(&p),
                    show(&i.map(|x| x.0))
                ))
            }
        }
        if let (Ok(w), Ok((_, info))) = (&want, &i) {
            if let Some(n) = flipped {
                assert_eq!(n, w.errors);
            }
            ctx.label(if w.errors > 0 { "with errors" } else { "no errors" });
            if w.errors > 0 {
                ctx.nontrivial();
            }
            let wi = QRInfo {
                version: v as u32,
                ec_level: ec(w.level),
                total_data: w.data_codewords as u32 * 8,
                errors: w.errors,
            };
            if *info != wi {
                return Err(format!("information {info:?}, expected {wi:?}"));
            }
        } else {
            ctx.label("not decodable");
            if want.is_ok() {
                return Err(format!("{} on a repairable symbol", show(&p)));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FormatCase {
    pub version: usize,
    pub level: Level,
    pub mask: u8,
    pub segs: Vec<SegSpec>,
    pub first: u16,
    pub second: u16,
}

pub struct C05;

fn flips(max: u32) -> BoxedStrategy<u16> {
    (0..=max)
        .prop_flat_map(|k| prop::sample::subsequence((0..15u32).collect::<Vec<_>>(), k as usize))
        .prop_map(|p| p.into_iter().fold(0u16, |a, b| a | (1 << b)))
        .boxed()
}

/// Any 15 bits further than three from every format word.
fn unreadable() -> BoxedStrategy<u16> {
    any::<u16>()
        .prop_map(|w| {
            let mut w = w & 0x7FFF;
            // step to the next unreadable word: about a quarter of all words are
            while nearest_format(w).is_some() {
                w = (w + 1) & 0x7FFF;
            }
            w
        })
        .boxed()
}

impl Prop for C05 {
    type Case = FormatCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "All 32768 read-outs of the first copy, then all 32768 of the second under an unreadable first, then generated pairs (at most three flips; any word; unreadable), on symbols of all versions whose data are written under the level and mask that should be read. Text and failure must agree with nearest-word decoding of the first copy, else of the second. Non-trivial: the first copy is not a format word."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(2 * 32768 + 40_000, 2 * 32768 + 2_000_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<FormatCase> {
        let any15 = || (0u16..0x8000).boxed();
        // small versions while enumerating
        let (version, l, m) = if idx < 65536 {
            (1 + idx % 6, LEVELS[(idx / 6) % 4], ((idx / 24) % 8) as u8)
        } else {
            vlm(idx)
        };
        let right = format_word(l, m);
        let near = move || flips(3).prop_map(move |f| right ^ f).boxed();
        let (a, b) = if idx < 32768 {
            (
                Just(idx as u16).boxed(),
                prop_oneof![near(), any15(), unreadable()].boxed(),
            )
        } else if idx < 65536 {
            (unreadable(), Just((idx - 32768) as u16).boxed())
        } else {
            match idx % 4 {
                0 => (near(), any15()),
                1 => (unreadable(), near()),
                2 => (unreadable(), unreadable()),
                _ => (any15(), any15()),
            }
        };
        (a, b, prop_oneof![short_specs(), seg_specs(200)])
            .prop_map(move |(first, second, segs)| {
                let (level, mask) = nearest_format(first)
                    .or_else(|| nearest_format(second))
                    .map_or((l, m), |f| (f.0, f.1));
                FormatCase {
                    version,
                    level,
                    mask,
                    segs,
                    first,
                    second,
                }
            })
            .boxed()
    }
    fn check(&self, c: &FormatCase, ctx: &mut Ctx) -> Result<(), String> {
        let segs = build(&c.segs, c.version, c.level);
        let mut sym = Symbol::from_segs(&segs, c.version, c.level, c.mask);
        sym.set_format(0, c.first);
        sym.set_format(1, c.second);
        let f = nearest_format(c.first);
        let s = nearest_format(c.second);
        ctx.label(match (f, s) {
            (Some((_, _, 0)), _) => "first copy intact".to_string(),
            (Some((_, _, n)), _) => format!("first copy with {n} wrong bits"),
            (None, Some(_)) => "falls back on the second".into(),
            (None, None) => "neither readable".into(),
        });
        if !matches!(f, Some((_, _, 0))) {
            ctx.nontrivial();
        }
        let want = ref_decode(&sym.dark, c.version);
        let px = sym.pixels();
        ctx.comparisons += 2;
        expect_ref(&plain(&px, c.version), &want)?;
        let i = with_info(&px, c.version);
        if let (Ok((_, i)), Some((l, _, _))) = (&i, f.or(s)) {
            if i.ec_level != ec(l) {
                return Err(format!("level {:?} reported, {l:?} written", i.ec_level));
            }
        }
        expect_ref(&i.map(|r| r.0), &want).map_err(|e| format!("with information: {e}"))
    }
}

// ---------------------------------------------------------------- C06

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Tok {
    Seg(SegSpec),
    /// a segment whose count field says something else
    Lie(SegSpec, u16),
    /// a byte segment of arbitrary bytes
    Raw(Vec<u8>),
    /// mode, count, then groups of raw values: numeric or alphanumeric groups out of range
    Groups { mode: u8, count: u16, values: Vec<u16> },
    Bits(u32, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BadCase {
    Stream {
        version: usize,
        level: Level,
        mask: u8,
        toks: Vec<Tok>,
        /// repeated to fill the symbol
        fill: Vec<u8>,
    },
    Matrix {
        version: usize,
        pixels: Vec<u8>,
    },
}

fn tok() -> BoxedStrategy<Tok> {
    let spec = short_specs().prop_map(|mut v| v.remove(0));
    prop_oneof![
        3 => spec.clone().prop_map(Tok::Seg),
        2 => (spec, prop_oneof![0u16..64, any::<u16>()]).prop_map(|(s, n)| Tok::Lie(s, n)),
        3 => prop::collection::vec(prop_oneof![3 => any::<u8>(), 1 => Just(0xC3u8), 1 => 0x80u8..0xC0], 0..30).prop_map(Tok::Raw),
        4 => (1u8..=2, 0u16..12, prop::collection::vec(
                prop_oneof![Just(999u16), Just(1000), Just(99), Just(100), Just(9), Just(10), Just(2024), Just(2025), Just(44), Just(45), Just(63), any::<u16>()], 0..6))
            .prop_map(|(mode, count, values)| Tok::Groups { mode, count, values }),
        2 => (any::<u32>(), 1u8..=16).prop_map(|(v, n)| Tok::Bits(v, n)),
    ]
    .boxed()
}

fn stream_bits(toks: &[Tok], version: usize) -> Bits {
    let mut b = Bits::default();
    for t in toks {
        match t {
            Tok::Seg(s) => push_seg(&mut b, &s.expand(), version),
            Tok::Lie(s, n) => {
                let seg = s.expand();
                let at = b.len() + 4;
                push_seg(&mut b, &seg, version);
                let w = count_bits(&seg, version);
                for i in 0..w {
                    b.0[at + i] = w - 1 - i < 16 && (n >> (w - 1 - i)) & 1 == 1;
                }
            }
            Tok::Raw(v) => push_seg(&mut b, &Seg::Byte(v.clone()), version),
            Tok::Groups { mode, count, values } => {
                b.push(u32::from(*mode), 4);
                let (probe, group, widths): (Seg, u16, [usize; 4]) = if *mode == 1 {
                    (Seg::Num(vec![]), 3, [0, 4, 7, 10])
                } else {
                    (Seg::Alnum(vec![]), 2, [0, 6, 11, 0])
                };
                b.push(u32::from(*count), count_bits(&probe, version));
                let mut left = *count;
                for v in values {
                    if left == 0 {
                        break;
                    }
                    let g = left.min(group);
                    let w = widths[g as usize];
                    b.push(u32::from(*v) & ((1 << w) - 1), w);
                    left -= g;
                }
            }
            Tok::Bits(v, n) => b.push(*v & ((1u32 << n) - 1), *n as usize),
        }
    }
    b
}

pub struct C06;

impl Prop for C06 {
    type Case = BadCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Valid symbols whose data codewords are generated bit streams (well-formed and lying segments, out-of-range groups, arbitrary bytes, unsupported modes, raw bits, cut at the capacity), and matrices of arbitrary pixels for versions 0 to 60. Text or failure must be that of the reference segment parser or decoder, and nothing panics. Non-trivial: the reference parser rejects the stream."
    }
    fn cases(&self, t: Tier) -> usize {
        t.pick(102_400, 3_000_000)
    }
    fn strategy(&self, idx: usize, _t: Tier) -> BoxedStrategy<BadCase> {
        if idx % 16 == 15 {
            let version = (idx / 16) % 64;
            let version = if version > 60 { [0, 41, 100][version - 61] } else { version };
            let side = version * 4 + 17;
            return prop_oneof![
                prop::collection::vec(any::<u8>(), 1..64),
                prop::collection::vec(prop_oneof![Just(0u8), Just(255)], 1..400),
            ]
            .prop_map(move |p| BadCase::Matrix {
                version,
                pixels: (0..side * side).map(|i| p[(i + i / 97) % p.len()]).collect(),
            })
            .boxed();
        }
        // small symbols are cut off soonest
        let (v, level, mask) = vlm(idx);
        let version = if idx % 2 == 0 { v } else { [1, 2, 3, 10, 27][idx / 2 % 5] };
        (
            prop_oneof![
                5 => prop::collection::vec(tok(), 0..6),
                1 => prop::collection::vec((any::<u32>(), 1u8..=16).prop_map(|(v, n)| Tok::Bits(v, n)), 0..30),
            ],
            prop_oneof![
                Just(vec![0xEC, 0x11]),
                Just(vec![0]),
                prop::collection::vec(any::<u8>(), 1..20)
            ],
        )
            .prop_map(move |(toks, fill)| BadCase::Stream {
                version,
                level,
                mask,
                toks,
                fill,
            })
            .boxed()
    }
    fn check(&self, c: &BadCase, ctx: &mut Ctx) -> Result<(), String> {
        match c {
            BadCase::Stream {
                version,
                level,
                mask,
                toks,
                fill,
            } => {
                let cap = data_codewords(*version, *level);
                let mut b = stream_bits(toks, *version);
                let mut k = 0;
                while b.len() < cap * 8 {
                    b.push(u32::from(fill[k % fill.len()]), 8);
                    k += 1;
                }
                b.0.truncate(cap * 8);
                let data = pack(&b);
                let want = ref_payload(&data, *version);
                match &want {
                    Ok(_) => ctx.label("well-formed"),
                    Err(e) => {
                        ctx.label(format!("rejected: {e}"));
                        ctx.nontrivial();
                    }
                }
                let px = Symbol::from_data(&data, *version, *level, *mask).pixels();
                let want = want
                    .map(|text| RefDecoded {
                        text,
                        level: *level,
                        mask: *mask,
                        errors: 0,
                        data_codewords: cap,
                    })
                    .map_err(RefError::Payload);
                ctx.comparisons += 2;
                expect_ref(&plain(&px, *version), &want)?;
                expect_ref(&with_info(&px, *version).map(|r| r.0), &want)
                    .map_err(|e| format!("with information: {e}"))
            }
            BadCase::Matrix { version, pixels } => {
                let got = plain(pixels, *version);
                let got2 = with_info(pixels, *version).map(|r| r.0);
                ctx.comparisons += 2;
                let want = if (1..=40).contains(version) {
                    ctx.label("arbitrary matrix");
                    ref_decode(&dark(pixels), *version)
                } else {
                    ctx.label("impossible version");
                    Err(RefError::Format)
                };
                expect_ref(&got, &want)?;
                expect_ref(&got2, &want).map_err(|e| format!("with information: {e}"))
            }
        }
    }
}
