//! The reference model against values printed in ISO/IEC 18004 and against itself; the library
//! under test has no part in it.

use crate::refqr::*;

pub fn run() -> Result<(), String> {
    let want = |what: String, ok: bool| if ok { Ok(()) } else { Err(format!("the reference model is wrong about {what}")) };
    // annex I: "01234567" as version 1-M
    let seg = [Seg::Num((0..8).collect())];
    let data = data_bytes(&seg, 1, Level::M);
    let printed = [0x10, 0x20, 0x0C, 0x56, 0x61, 0x80, 0xEC, 0x11, 0xEC, 0x11, 0xEC, 0x11, 0xEC, 0x11, 0xEC, 0x11];
    want("annex I's data codewords".into(), data == printed)?;
    let ecc = [0xA5, 0x24, 0xD4, 0xC1, 0xED, 0x36, 0xC7, 0x87, 0x2C, 0x55];
    want("annex I's error correction codewords".into(), rs_ecc(&data, 10) == ecc)?;
    want("annex C's format word".into(), format_word(Level::M, 5) == 0b100_0000_1100_1110)?;
    // alphanumeric example of 7.4.4
    let mut b = Bits(vec![]);
    push_seg(&mut b, &Seg::Alnum(vec![10, 12, 41, 4, 2]), 1);
    let bits: String = b.0.iter().map(|&v| if v { '1' } else { '0' }).collect();
    want("7.4.4's bits".into(), bits == "00100000001010011100111011100111001000010")?;
    for (v, at) in [
        (2, vec![6, 18]),
        (7, vec![6, 22, 38]),
        (14, vec![6, 26, 46, 66]),
        (15, vec![6, 26, 48, 70]),
        (22, vec![6, 26, 50, 74, 98]),
        (32, vec![6, 34, 60, 86, 112, 138]),
        (36, vec![6, 24, 50, 76, 102, 128, 154]),
        (39, vec![6, 26, 54, 82, 110, 138, 166]),
        (40, vec![6, 30, 58, 86, 114, 142, 170]),
    ] {
        want(format!("alignment patterns of version {v}"), alignment_positions(v) == at)?;
    }
    // tables 7 and 9: data codewords, and characters of each mode
    for (v, l, cw, num, alnum, byte) in [
        (1, Level::L, 19, 41, 25, 17),
        (1, Level::H, 9, 17, 10, 7),
        (5, Level::Q, 62, 144, 87, 60),
        (7, Level::H, 66, 154, 93, 64),
        (10, Level::M, 216, 513, 311, 213),
        (14, Level::Q, 261, 621, 376, 258),
        (22, Level::H, 442, 1056, 640, 439),
        (27, Level::L, 1468, 3517, 2132, 1465),
        (32, Level::M, 1541, 3693, 2238, 1538),
        (40, Level::L, 2956, 7089, 4296, 2953),
        (40, Level::M, 2334, 5596, 3391, 2331),
        (40, Level::Q, 1666, 3993, 2420, 1663),
        (40, Level::H, 1276, 3057, 1852, 1273),
    ] {
        want(format!("data codewords of {v}-{l:?}"), data_codewords(v, l) == cw)?;
        for (s, n) in [
            (Seg::Num(vec![7; 8000]), num),
            (Seg::Alnum(vec![7; 8000]), alnum),
            (Seg::Byte(vec![7; 8000]), byte),
        ] {
            let f = fit(&[s], v, l);
            want(format!("characters of {v}-{l:?}"), f.len() == 1 && f[0].len() == n)?;
        }
    }
    // 32 format words at least 7 apart
    let words: Vec<u16> = LEVELS.iter().flat_map(|&l| (0..8).map(move |m| format_word(l, m))).collect();
    for i in 0..32 {
        for j in 0..i {
            want("the distance of format words".into(), (words[i] ^ words[j]).count_ones() >= 5)?;
        }
    }
    // every symbol there is: encoder and decoder agree, with and without errors
    for v in 1..=40 {
        for l in LEVELS {
            let bl = blocks(v, l);
            want(format!("modules of {v}"), layout(v).order.len() / 8 == bl.total)?;
            for mask in 0..8 {
                let k = v * 32 + l.idx() * 8 + usize::from(mask);
                let seg = [
                    Seg::Alnum((0..k % 7).map(|i| ((i * 7 + k) % 45) as u8).collect()),
                    Seg::Num((0..k % 5).map(|i| ((i + k) % 10) as u8).collect()),
                    Seg::Byte(vec![b'x'; 4000]),
                ];
                let segs = fit(&seg, v, l);
                let mut s = Symbol::from_segs(&segs, v, l, mask);
                let mut errors = 0;
                for (b, d) in bl.data.iter().enumerate() {
                    for e in 0..bl.t {
                        let x = ((k * 31 + b * 7 + e * 13) % 255 + 1) as u8;
                        s.xor_codeword(b, (e * (d + bl.ec) / bl.t + k) % (d + bl.ec), x);
                        errors += x.count_ones();
                    }
                }
                let r = ref_decode(&s.dark, v).map_err(|e| format!("the reference decoder fails on {v}-{l:?}: {e:?}"))?;
                want(
                    format!("its own symbols of {v}-{l:?}"),
                    Some(&r.text) == text(&segs).as_ref() && r.level == l && r.mask == mask && r.errors == errors,
                )?;
            }
        }
    }
    Ok(())
}
