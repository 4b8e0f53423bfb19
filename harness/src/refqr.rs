//! An independent QR Code model written from ISO/IEC 18004: encoder, layout and a
//! bounded-distance reference decoder.  It shares no code or table with the crate under test.

use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Level {
    L,
    M,
    Q,
    H,
}
pub const LEVELS: [Level; 4] = [Level::L, Level::M, Level::Q, Level::H];

impl Level {
    pub fn idx(self) -> usize {
        self as usize
    }
    /// The two format information bits.
    pub fn bits(self) -> u16 {
        [1, 0, 3, 2][self as usize]
    }
    pub fn from_bits(b: u16) -> Level {
        match b {
            1 => Level::L,
            0 => Level::M,
            3 => Level::Q,
            2 => Level::H,
            _ => unreachable!(),
        }
    }
}

// Error correction codewords per block, [level][version]
static ECC_PER_BLOCK: [[u8; 41]; 4] = [
    [
        0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28,
        30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    [
        0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28,
        28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    ],
    [
        0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30,
        30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    [
        0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24,
        30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
];

// Number of error correction blocks, [level][version]
static NUM_BLOCKS: [[u8; 41]; 4] = [
    [
        0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13,
        14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25,
    ],
    [
        0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21,
        23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49,
    ],
    [
        0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29,
        34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68,
    ],
    [
        0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32,
        35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81,
    ],
];

// ---------------------------------------------------------------- GF(256)

pub fn gf_mul(a: u8, b: u8) -> u8 {
    // Russian peasant multiplication modulo x^8+x^4+x^3+x^2+1
    let mut z: u16 = 0;
    for i in (0..8).rev() {
        z <<= 1;
        if z & 0x100 != 0 {
            z ^= 0x11D;
        }
        if (b >> i) & 1 != 0 {
            z ^= u16::from(a);
        }
    }
    z as u8
}

struct GfTables {
    mul: Vec<u8>, // 65536
    inv: [u8; 256],
    pow: [u8; 255],
}

fn gf() -> &'static GfTables {
    static T: OnceLock<GfTables> = OnceLock::new();
    T.get_or_init(|| {
        let mut mul = vec![0u8; 65536];
        let mut inv = [0u8; 256];
        for a in 0..256usize {
            for b in 0..256usize {
                let p = gf_mul(a as u8, b as u8);
                mul[a * 256 + b] = p;
                if p == 1 {
                    inv[a] = b as u8;
                }
            }
        }
        let mut pow = [0u8; 255];
        let mut x = 1u8;
        for p in pow.iter_mut() {
            *p = x;
            x = gf_mul(x, 2);
        }
        GfTables { mul, inv, pow }
    })
}

#[inline]
fn m(a: u8, b: u8) -> u8 {
    gf().mul[a as usize * 256 + b as usize]
}

/// 2 to the power of `e` in GF(256).
pub fn gf_pow(e: usize) -> u8 {
    gf().pow[e % 255]
}

/// Remainder of data * x^n divided by the generator polynomial of degree n.
pub fn rs_ecc(data: &[u8], n: usize) -> Vec<u8> {
    // generator, highest coefficient (1) implicit
    let mut g = vec![0u8; n];
    g[n - 1] = 1;
    let mut root = 1u8;
    for _ in 0..n {
        for j in 0..n {
            g[j] = m(g[j], root);
            if j + 1 < n {
                g[j] ^= g[j + 1];
            }
        }
        root = m(root, 2);
    }
    let mut rem = vec![0u8; n];
    for b in data {
        let f = b ^ rem.remove(0);
        rem.push(0);
        for (r, c) in rem.iter_mut().zip(&g) {
            *r ^= m(*c, f);
        }
    }
    rem
}

/// All n syndromes of the block (codeword 0 is the highest power).
fn syndromes(block: &[u8], n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let a = gf().pow[i % 255];
            block.iter().fold(0u8, |acc, &c| m(acc, a) ^ c)
        })
        .collect()
}

pub fn is_codeword(block: &[u8], n: usize) -> bool {
    syndromes(block, n).iter().all(|&s| s == 0)
}

/// Bounded-distance decoding: the unique codeword within Hamming distance `t` of `block`
/// (2t <= n), or None.  Berlekamp-Massey, Chien search and Forney, checked against all n
/// syndromes afterwards.
pub fn rs_correct(block: &[u8], n: usize, t: usize) -> Option<Vec<u8>> {
    let s = syndromes(block, n);
    if s.iter().all(|&x| x == 0) {
        return Some(block.to_vec());
    }
    // Berlekamp-Massey over all n syndromes
    let mut c = vec![1u8];
    let mut b = vec![1u8];
    let mut l = 0usize;
    let mut mm = 1usize;
    let mut bb = 1u8;
    for i in 0..n {
        let mut d = s[i];
        for j in 1..=l {
            if j < c.len() {
                d ^= m(c[j], s[i - j]);
            }
        }
        if d == 0 {
            mm += 1;
        } else {
            let coef = m(d, gf().inv[bb as usize]);
            let tcopy = c.clone();
            if c.len() < b.len() + mm {
                c.resize(b.len() + mm, 0);
            }
            for (j, &bj) in b.iter().enumerate() {
                c[j + mm] ^= m(coef, bj);
            }
            if 2 * l <= i {
                l = i + 1 - l;
                b = tcopy;
                bb = d;
                mm = 1;
            } else {
                mm += 1;
            }
        }
    }
    if l > t {
        return None;
    }
    c.resize(l + 1, 0);
    // Chien search
    let len = block.len();
    let mut pos = vec![];
    for p in 0..len {
        // error at power p <=> sigma(alpha^-p) == 0
        let x = gf().pow[(255 - p % 255) % 255];
        let mut v = 0u8;
        for &co in c.iter().rev() {
            v = m(v, x) ^ co;
        }
        if v == 0 {
            pos.push(p);
        }
    }
    if pos.len() != l {
        return None;
    }
    // error magnitudes by solving the Vandermonde system with plain elimination with pivoting
    let mut a: Vec<Vec<u8>> = (0..l)
        .map(|i| {
            let mut row: Vec<u8> = pos.iter().map(|&p| gf().pow[(i * p) % 255]).collect();
            row.push(s[i]);
            row
        })
        .collect();
    for col in 0..l {
        let piv = (col..l).find(|&r| a[r][col] != 0)?;
        a.swap(col, piv);
        let iv = gf().inv[a[col][col] as usize];
        for k in col..=l {
            a[col][k] = m(a[col][k], iv);
        }
        for r in 0..l {
            if r != col && a[r][col] != 0 {
                let f = a[r][col];
                for k in col..=l {
                    let v = m(f, a[col][k]);
                    a[r][k] ^= v;
                }
            }
        }
    }
    let mut out = block.to_vec();
    for (i, &p) in pos.iter().enumerate() {
        out[len - 1 - p] ^= a[i][l];
    }
    if is_codeword(&out, n) {
        Some(out)
    } else {
        None
    }
}

// ---------------------------------------------------------------- layout

#[derive(Debug)]
pub struct Layout {
    pub version: usize,
    pub size: usize,
    /// function module (not data)
    pub func: Vec<bool>,
    /// data module coordinates in placement order
    pub order: Vec<(usize, usize)>,
    /// base picture of the function patterns (format and version info left light)
    pub base: Vec<bool>,
    pub align: Vec<(usize, usize)>,
}

pub fn alignment_positions(version: usize) -> Vec<usize> {
    if version == 1 {
        return vec![];
    }
    let num = version / 7 + 2;
    let size = version * 4 + 17;
    let step = if version == 32 {
        26
    } else {
        (version * 4 + num * 2 + 1) / (num * 2 - 2) * 2
    };
    let mut r: Vec<usize> = (0..num - 1).map(|i| size - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}

pub fn layout(version: usize) -> &'static Layout {
    static L: OnceLock<Vec<Layout>> = OnceLock::new();
    &L.get_or_init(|| (1..=40).map(make_layout).collect())[version - 1]
}

fn make_layout(version: usize) -> Layout {
    let size = version * 4 + 17;
    let mut func = vec![false; size * size];
    let mut base = vec![false; size * size];
    {
        let mut set = |x: usize, y: usize, dark: bool| {
            func[y * size + x] = true;
            base[y * size + x] = dark;
        };
        for i in 0..size {
            set(6, i, i % 2 == 0);
            set(i, 6, i % 2 == 0);
        }
        // finders with separators
        for (cx, cy) in [(3i32, 3i32), (size as i32 - 4, 3), (3, size as i32 - 4)] {
            for dy in -4i32..=4 {
                for dx in -4i32..=4 {
                    let (x, y) = (cx + dx, cy + dy);
                    if x >= 0 && y >= 0 && x < size as i32 && y < size as i32 {
                        let d = dx.abs().max(dy.abs());
                        set(x as usize, y as usize, d != 2 && d != 4);
                    }
                }
            }
        }
        // format information areas and the dark module
        for i in 0..9 {
            if i != 6 {
                set(8, i, false);
                set(i, 8, false);
            }
        }
        for i in 0..8 {
            set(size - 1 - i, 8, false);
            set(8, size - 1 - i, false);
        }
        set(8, size - 8, true);
        if version >= 7 {
            for i in 0..18 {
                let a = size - 11 + i % 3;
                let b = i / 3;
                set(a, b, false);
                set(b, a, false);
            }
        }
    }
    let pos = alignment_positions(version);
    let mut align = vec![];
    for (i, &cx) in pos.iter().enumerate() {
        for (j, &cy) in pos.iter().enumerate() {
            let n = pos.len();
            if (i == 0 && j == 0) || (i == 0 && j == n - 1) || (i == n - 1 && j == 0) {
                continue;
            }
            align.push((cx, cy));
            for dy in -2i32..=2 {
                for dx in -2i32..=2 {
                    let x = (cx as i32 + dx) as usize;
                    let y = (cy as i32 + dy) as usize;
                    func[y * size + x] = true;
                    base[y * size + x] = dx.abs().max(dy.abs()) != 1;
                }
            }
        }
    }
    // zigzag
    let mut order = vec![];
    let mut right = size as i32 - 1;
    let mut up = true;
    while right >= 1 {
        if right == 6 {
            right = 5;
        }
        for v in 0..size {
            for j in 0..2 {
                let x = right as usize - j;
                let y = if up { size - 1 - v } else { v };
                if !func[y * size + x] {
                    order.push((x, y));
                }
            }
        }
        up = !up;
        right -= 2;
    }
    Layout {
        version,
        size,
        func,
        order,
        base,
        align,
    }
}

#[derive(Debug, Clone)]
pub struct BlockLayout {
    /// data length of every block
    pub data: Vec<usize>,
    pub ec: usize,
    /// number of codeword errors per block the standard promises to repair
    pub t: usize,
    pub total: usize,
}

pub fn blocks(version: usize, level: Level) -> BlockLayout {
    let total = layout(version).order.len() / 8;
    let nb = NUM_BLOCKS[level.idx()][version] as usize;
    let ec = ECC_PER_BLOCK[level.idx()][version] as usize;
    let short = nb - total % nb;
    let short_data = total / nb - ec;
    let data = (0..nb)
        .map(|i| if i < short { short_data } else { short_data + 1 })
        .collect();
    // misdecode protection codewords p (ISO/IEC 18004 table 9)
    let p = match (version, level) {
        (1, Level::L) => 3,
        (1, Level::M) => 2,
        (1, Level::Q) | (1, Level::H) => 1,
        (2, Level::L) => 2,
        (3, Level::L) => 1,
        _ => 0,
    };
    BlockLayout {
        data,
        ec,
        t: (ec - p) / 2,
        total,
    }
}

pub fn data_codewords(version: usize, level: Level) -> usize {
    blocks(version, level).data.iter().sum()
}

/// order[k] = (block, index in block) of the k-th codeword in placement order
pub fn interleave_order(bl: &BlockLayout) -> Vec<(usize, usize)> {
    let mut o = vec![];
    let max = *bl.data.iter().max().unwrap();
    for i in 0..max {
        for (b, &d) in bl.data.iter().enumerate() {
            if i < d {
                o.push((b, i));
            }
        }
    }
    for i in 0..bl.ec {
        for (b, &d) in bl.data.iter().enumerate() {
            o.push((b, d + i));
        }
    }
    o
}

pub fn mask_bit(mask: u8, x: usize, y: usize) -> bool {
    let (i, j) = (y, x);
    match mask {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => (i * j) % 2 + (i * j) % 3 == 0,
        6 => ((i * j) % 2 + (i * j) % 3) % 2 == 0,
        7 => ((i + j) % 2 + (i * j) % 3) % 2 == 0,
        _ => unreachable!(),
    }
}

/// The 15 format information bits as placed (mask pattern applied), bit 14 first placed.
pub fn format_word(level: Level, mask: u8) -> u16 {
    let data = (level.bits() << 3) | u16::from(mask);
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    ((data << 10) | rem) ^ 0x5412
}

/// Module coordinates of format bit `i` (0 = least significant) in the first (around the top
/// left finder) and second copy.
pub fn format_pos(size: usize, copy: usize, i: usize) -> (usize, usize) {
    if copy == 0 {
        match i {
            0..=5 => (8, i),
            6 => (8, 7),
            7 => (8, 8),
            8 => (7, 8),
            _ => (14 - i, 8),
        }
    } else if i < 8 {
        (size - 1 - i, 8)
    } else {
        (8, size - 15 + i)
    }
}

fn version_word(version: usize) -> u32 {
    let mut rem = version as u32;
    for _ in 0..12 {
        rem = (rem << 1) ^ ((rem >> 11) * 0x1F25);
    }
    ((version as u32) << 12) | rem
}

// ---------------------------------------------------------------- segments

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Seg {
    /// digits 0..=9
    Num(Vec<u8>),
    /// values 0..=44
    Alnum(Vec<u8>),
    Byte(Vec<u8>),
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

pub fn count_bits(seg: &Seg, version: usize) -> usize {
    let c = if version <= 9 {
        0
    } else if version <= 26 {
        1
    } else {
        2
    };
    match seg {
        Seg::Num(_) => [10, 12, 14][c],
        Seg::Alnum(_) => [9, 11, 13][c],
        Seg::Byte(_) => [8, 16, 16][c],
    }
}

impl Seg {
    pub fn len(&self) -> usize {
        match self {
            Seg::Num(v) | Seg::Alnum(v) | Seg::Byte(v) => v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn truncate(&mut self, n: usize) {
        match self {
            Seg::Num(v) | Seg::Alnum(v) | Seg::Byte(v) => v.truncate(n),
        }
    }
    pub fn payload_bits(&self) -> usize {
        match self {
            Seg::Num(v) => v.len() / 3 * 10 + [0, 4, 7][v.len() % 3],
            Seg::Alnum(v) => v.len() / 2 * 11 + v.len() % 2 * 6,
            Seg::Byte(v) => v.len() * 8,
        }
    }
    pub fn bits(&self, version: usize) -> usize {
        4 + count_bits(self, version) + self.payload_bits()
    }
}

/// How a byte segment reads: ISO 8859-1, unless it holds the byte 0xC3, which marks UTF-8.
pub fn byte_text(b: &[u8]) -> Option<String> {
    if b.contains(&0xC3) {
        String::from_utf8(b.to_vec()).ok()
    } else {
        Some(b.iter().map(|&c| char::from(c)).collect())
    }
}

/// Text of a list of segments; None if a byte segment is neither of the two encodings.
pub fn text(segs: &[Seg]) -> Option<String> {
    let mut s = String::new();
    for g in segs {
        match g {
            Seg::Num(v) => s.extend(v.iter().map(|d| char::from(b'0' + d))),
            Seg::Alnum(v) => s.extend(v.iter().map(|&c| char::from(ALNUM[c as usize]))),
            Seg::Byte(v) => s.push_str(&byte_text(v)?),
        }
    }
    Some(s)
}

#[derive(Debug, Clone, Default)]
pub struct Bits(pub Vec<bool>);

impl Bits {
    pub fn push(&mut self, v: u32, n: usize) {
        for i in (0..n).rev() {
            self.0.push((v >> i) & 1 == 1);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

pub fn push_seg(b: &mut Bits, seg: &Seg, version: usize) {
    let mode = match seg {
        Seg::Num(_) => 1,
        Seg::Alnum(_) => 2,
        Seg::Byte(_) => 4,
    };
    b.push(mode, 4);
    b.push(seg.len() as u32, count_bits(seg, version));
    match seg {
        Seg::Num(v) => {
            for ch in v.chunks(3) {
                let n = ch.iter().fold(0u32, |a, &d| a * 10 + u32::from(d));
                b.push(n, [0, 4, 7, 10][ch.len()]);
            }
        }
        Seg::Alnum(v) => {
            for ch in v.chunks(2) {
                if ch.len() == 2 {
                    b.push(u32::from(ch[0]) * 45 + u32::from(ch[1]), 11);
                } else {
                    b.push(u32::from(ch[0]), 6);
                }
            }
        }
        Seg::Byte(v) => {
            for &c in v {
                b.push(u32::from(c), 8);
            }
        }
    }
}

/// Keep the longest prefix of the segments that fits `(version, level)`.
pub fn fit(segs: &[Seg], version: usize, level: Level) -> Vec<Seg> {
    let cap = data_codewords(version, level) * 8;
    let mut used = 0;
    let mut out = vec![];
    for s in segs {
        let mut s = s.clone();
        let maxcount = (1usize << count_bits(&s, version)) - 1;
        s.truncate(maxcount);
        let head = 4 + count_bits(&s, version);
        if used + head > cap {
            break;
        }
        if used + s.bits(version) <= cap {
            used += s.bits(version);
            out.push(s);
            continue;
        }
        let (mut lo, mut hi) = (0, s.len());
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            let mut c = s.clone();
            c.truncate(mid);
            if used + c.bits(version) <= cap {
                lo = mid;
            } else {
                hi = mid - 1;
            }
        }
        s.truncate(lo);
        out.push(s);
        break;
    }
    out
}

/// Bits of all segments with terminator, bit padding and pad codewords: the data codewords.
pub fn data_bytes(segs: &[Seg], version: usize, level: Level) -> Vec<u8> {
    let cap = data_codewords(version, level) * 8;
    let mut b = Bits::default();
    for s in segs {
        push_seg(&mut b, s, version);
    }
    assert!(b.len() <= cap, "segments do not fit");
    let term = (cap - b.len()).min(4);
    b.push(0, term);
    while b.len() % 8 != 0 {
        b.push(0, 1);
    }
    let mut bytes = pack(&b);
    let mut pad = 0xEC;
    while bytes.len() < cap / 8 {
        bytes.push(pad);
        pad ^= 0xEC ^ 0x11;
    }
    bytes
}

pub fn pack(b: &Bits) -> Vec<u8> {
    b.0.chunks(8)
        .map(|c| {
            let mut v = 0u8;
            for i in 0..8 {
                v = (v << 1) | u8::from(c.get(i).copied().unwrap_or(false));
            }
            v
        })
        .collect()
}

// ---------------------------------------------------------------- symbol

#[derive(Debug, Clone)]
pub struct Symbol {
    pub version: usize,
    pub level: Level,
    pub mask: u8,
    pub size: usize,
    /// dark modules, row major
    pub dark: Vec<bool>,
}

impl Symbol {
    pub fn from_segs(segs: &[Seg], version: usize, level: Level, mask: u8) -> Symbol {
        Symbol::from_data(&data_bytes(segs, version, level), version, level, mask)
    }

    /// Build from raw data codewords (must be exactly the capacity).
    pub fn from_data(data: &[u8], version: usize, level: Level, mask: u8) -> Symbol {
        let bl = blocks(version, level);
        assert_eq!(data.len(), bl.data.iter().sum::<usize>());
        let mut blks = vec![];
        let mut k = 0;
        for &d in &bl.data {
            let mut b = data[k..k + d].to_vec();
            k += d;
            let e = rs_ecc(&b, bl.ec);
            b.extend(e);
            blks.push(b);
        }
        Symbol::from_blocks(&blks, version, level, mask)
    }

    /// Build from full blocks (data and error correction codewords), whatever they hold.
    pub fn from_blocks(blks: &[Vec<u8>], version: usize, level: Level, mask: u8) -> Symbol {
        let lay = layout(version);
        let bl = blocks(version, level);
        let size = lay.size;
        let mut dark = lay.base.clone();
        for (k, (b, i)) in interleave_order(&bl).into_iter().enumerate() {
            let cw = blks[b][i];
            for bit in 0..8 {
                let (x, y) = lay.order[k * 8 + bit];
                dark[y * size + x] = (cw >> (7 - bit)) & 1 == 1;
            }
        }
        for &(x, y) in &lay.order {
            dark[y * size + x] ^= mask_bit(mask, x, y);
        }
        let mut s = Symbol {
            version,
            level,
            mask,
            size,
            dark,
        };
        let f = format_word(level, mask);
        s.set_format(0, f);
        s.set_format(1, f);
        if version >= 7 {
            let w = version_word(version);
            for i in 0..18 {
                let bit = (w >> i) & 1 == 1;
                let a = size - 11 + i % 3;
                let b = i / 3;
                s.dark[b * size + a] = bit;
                s.dark[a * size + b] = bit;
            }
        }
        s
    }

    pub fn set_format(&mut self, copy: usize, word: u16) {
        for i in 0..15 {
            let (x, y) = format_pos(self.size, copy, i);
            self.dark[y * self.size + x] = (word >> i) & 1 == 1;
        }
    }

    pub fn get(&self, x: usize, y: usize) -> bool {
        self.dark[y * self.size + x]
    }

    /// 0 for dark and 255 for light, as the extractor delivers them
    pub fn pixels(&self) -> Vec<u8> {
        self.dark.iter().map(|&d| if d { 0 } else { 255 }).collect()
    }

    /// Flip `bits` of codeword `idx` of block `blk`.
    pub fn xor_codeword(&mut self, blk: usize, idx: usize, bits: u8) {
        let bl = blocks(self.version, self.level);
        let k = interleave_pos(&bl, blk, idx);
        for b in 0..8 {
            if (bits >> (7 - b)) & 1 == 1 {
                let (x, y) = layout(self.version).order[k * 8 + b];
                self.dark[y * self.size + x] ^= true;
            }
        }
    }

    /// The penalty score of ISO/IEC 18004 used to choose a mask.
    pub fn penalty(&self) -> u32 {
        let n = self.size;
        let mut p = 0u32;
        for dir in 0..2 {
            for a in 0..n {
                let line: Vec<bool> = (0..n)
                    .map(|b| if dir == 0 { self.get(b, a) } else { self.get(a, b) })
                    .collect();
                let mut run = 1;
                for i in 1..=n {
                    if i < n && line[i] == line[i - 1] {
                        run += 1;
                    } else {
                        if run >= 5 {
                            p += 3 + (run - 5);
                        }
                        run = 1;
                    }
                }
                let pat = [true, false, true, true, true, false, true];
                for i in 0..n.saturating_sub(6) {
                    if line[i..i + 7] == pat {
                        let before = (1..=4).all(|k| i < k || !line[i - k]);
                        let after = (0..4).all(|k| i + 7 + k >= n || !line[i + 7 + k]);
                        if before || after {
                            p += 40;
                        }
                    }
                }
            }
        }
        for y in 0..n - 1 {
            for x in 0..n - 1 {
                let c = self.get(x, y);
                if c == self.get(x + 1, y) && c == self.get(x, y + 1) && c == self.get(x + 1, y + 1)
                {
                    p += 3;
                }
            }
        }
        let d = self.dark.iter().filter(|&&x| x).count();
        let pct = d * 100 / (n * n);
        p + 10 * ((pct as i32 - 50).unsigned_abs() / 5)
    }

    /// What a conforming encoder produces: the mask with the lowest penalty.
    pub fn best_mask(segs: &[Seg], version: usize, level: Level) -> Symbol {
        (0..8)
            .map(|m| Symbol::from_segs(segs, version, level, m))
            .min_by_key(|s| s.penalty())
            .unwrap()
    }
}

pub fn interleave_pos(bl: &BlockLayout, blk: usize, idx: usize) -> usize {
    interleave_order(bl)
        .iter()
        .position(|&p| p == (blk, idx))
        .unwrap()
}

// ---------------------------------------------------------------- reference decoder

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RefError {
    Format,
    Uncorrectable(usize),
    Payload(&'static str),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RefDecoded {
    pub text: String,
    pub level: Level,
    pub mask: u8,
    /// module bits that had to be flipped
    pub errors: u32,
    pub data_codewords: usize,
}

/// The format word of one copy, nearest codeword within distance 3.
pub fn ref_format_copy(dark: &[bool], size: usize, copy: usize) -> Option<(Level, u8, u32)> {
    let mut w = 0u16;
    for i in 0..15 {
        let (x, y) = format_pos(size, copy, i);
        w |= u16::from(dark[y * size + x]) << i;
    }
    nearest_format(w)
}

pub fn nearest_format(w: u16) -> Option<(Level, u8, u32)> {
    for l in LEVELS {
        for mk in 0..8 {
            let d = (format_word(l, mk) ^ w).count_ones();
            if d <= 3 {
                return Some((l, mk, d));
            }
        }
    }
    None
}

pub fn ref_decode(dark: &[bool], version: usize) -> Result<RefDecoded, RefError> {
    let lay = layout(version);
    let size = lay.size;
    let (level, mask, _) = ref_format_copy(dark, size, 0)
        .or_else(|| ref_format_copy(dark, size, 1))
        .ok_or(RefError::Format)?;
    let bl = blocks(version, level);
    let mut blks: Vec<Vec<u8>> = bl.data.iter().map(|d| vec![0u8; d + bl.ec]).collect();
    for (k, (b, i)) in interleave_order(&bl).into_iter().enumerate() {
        let mut cw = 0u8;
        for bit in 0..8 {
            let (x, y) = lay.order[k * 8 + bit];
            cw = (cw << 1) | u8::from(dark[y * size + x] ^ mask_bit(mask, x, y));
        }
        blks[b][i] = cw;
    }
    let mut data = vec![];
    let mut errors = 0;
    for (i, b) in blks.iter().enumerate() {
        let c = rs_correct(b, bl.ec, bl.t).ok_or(RefError::Uncorrectable(i))?;
        errors += b
            .iter()
            .zip(&c)
            .map(|(a, b)| (a ^ b).count_ones())
            .sum::<u32>();
        data.extend_from_slice(&c[..bl.data[i]]);
    }
    let text = ref_payload(&data, version).map_err(RefError::Payload)?;
    Ok(RefDecoded {
        text,
        level,
        mask,
        errors,
        data_codewords: data.len(),
    })
}

/// Reference payload parser: numeric, alphanumeric and byte segments up to the terminator.
pub fn ref_payload(data: &[u8], version: usize) -> Result<String, &'static str> {
    let total = data.len() * 8;
    let mut pos = 0usize;
    let mut out = String::new();
    let c = if version <= 9 {
        0
    } else if version <= 26 {
        1
    } else {
        2
    };
    let bit = |p: usize| u32::from((data[p / 8] >> (7 - p % 8)) & 1);
    fn take(
        pos: &mut usize,
        total: usize,
        n: usize,
        bit: &dyn Fn(usize) -> u32,
    ) -> Result<u32, &'static str> {
        if *pos + n > total {
            return Err("truncated");
        }
        let mut v = 0;
        for i in 0..n {
            v = (v << 1) | bit(*pos + i);
        }
        *pos += n;
        Ok(v)
    }
    loop {
        if total - pos < 4 {
            return Ok(out);
        }
        match take(&mut pos, total, 4, &bit)? {
            0 => return Ok(out),
            1 => {
                let mut n = take(&mut pos, total, [10, 12, 14][c], &bit)?;
                while n > 0 {
                    let k = n.min(3);
                    let v = take(&mut pos, total, [0, 4, 7, 10][k as usize], &bit)?;
                    if v >= 10u32.pow(k) {
                        return Err("numeric value out of range");
                    }
                    out.push_str(&format!("{:0w$}", v, w = k as usize));
                    n -= k;
                }
            }
            2 => {
                let mut n = take(&mut pos, total, [9, 11, 13][c], &bit)?;
                while n > 0 {
                    if n >= 2 {
                        let v = take(&mut pos, total, 11, &bit)? as usize;
                        if v >= 45 * 45 {
                            return Err("alphanumeric pair out of range");
                        }
                        out.push(char::from(ALNUM[v / 45]));
                        out.push(char::from(ALNUM[v % 45]));
                        n -= 2;
                    } else {
                        let v = take(&mut pos, total, 6, &bit)? as usize;
                        if v >= 45 {
                            return Err("alphanumeric value out of range");
                        }
                        out.push(char::from(ALNUM[v]));
                        n -= 1;
                    }
                }
            }
            4 => {
                let n = take(&mut pos, total, [8, 16, 16][c], &bit)?;
                let mut b = vec![];
                for _ in 0..n {
                    b.push(take(&mut pos, total, 8, &bit)? as u8);
                }
                out.push_str(&byte_text(&b).ok_or("not UTF-8")?);
            }
            _ => return Err("unsupported mode"),
        }
    }
}
