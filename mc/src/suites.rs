//! Exhaustive enumerations of bounded message spaces, per property.
use crate::corpus::{self, PRIMS, raw};
use crate::enc::*;
use crate::scaled;
use crate::harness::{Cx, Th};
use crate::model;
use crate::rv::{RMsg, RObj, RVal};

/// Mixed-radix decoding of an index.
pub fn pick(i: &mut usize, n: usize) -> usize {
    let r = *i % n;
    *i /= n;
    r
}
pub fn val(v: RVal) -> RMsg {
    RMsg::Value(v)
}
fn s(x: &str) -> RVal {
    RVal::Str(x.into())
}

/// Around powers of two and other places where an implementation may change its behaviour.
pub fn ladder(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut p = 1;
    while p <= max {
        for d in [p - 1, p, p + 1] {
            if d > dense && d <= max {
                v.push(d)
            }
        }
        p *= 2;
    }
    for d in [300, 1000, 10_000, 20_000, 40_000, 50_000] {
        if d > dense && d <= max {
            v.push(d)
        }
    }
    v.sort();
    v.dedup();
    v
}

pub const INTS: [i32; 30] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 31, 64, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537,
    0x0100_0000, 0x0100_0001, i32::MAX - 1, i32::MAX, -2,
];

fn interesting_ints() -> Vec<i32> {
    let mut v = INTS.to_vec();
    v.extend([-1, -3, -128, -256, -257, -65536, i32::MIN, i32::MIN + 1, 0x0c00_0000, 12, 11, 0x0b0b_0b0b]);
    v
}

// ------------------------------------------------------------------ faults on the corpus

pub fn truncations(cx: &Cx) {
    let seeds = corpus::seeds();
    cx.par("every proper prefix of the corpus", seeds.len(), |th, i| {
        let b = &seeds[i].b;
        for n in 0..b.len() {
            // an exact-size copy: what lies behind the prefix in memory must not matter
            th.check(&b[..n].to_vec());
        }
        th.check(b);
    });
}

pub fn substitutions(cx: &Cx) {
    let seeds = corpus::seeds();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (0..s.b.len()).map(move |p| (i, p))).collect();
    cx.par("every single-byte substitution in the corpus", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        let mut b = seeds[i].b.clone();
        let orig = b[p];
        for x in 0..=255u8 {
            if x != orig {
                b[p] = x;
                th.check(&b);
            }
        }
    });
}

pub fn indels(cx: &Cx) {
    let seeds = corpus::seeds();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (0..=s.b.len()).map(move |p| (i, p))).collect();
    cx.par("every single-byte insertion and deletion of up to 6 bytes in the corpus", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        let o = &seeds[i].b;
        for x in 0..=255u8 {
            let mut b = o.clone();
            b.insert(p, x);
            th.check(&b);
        }
        for n in 1..=6 {
            if p + n <= o.len() {
                let mut b = o.clone();
                b.drain(p..p + n);
                th.check(&b);
            }
        }
    });
}

pub fn windows(cx: &Cx) {
    let seeds = corpus::seeds();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (0..s.b.len().saturating_sub(3)).map(move |p| (i, p))).collect();
    let ints = interesting_ints();
    cx.par("every 4-byte window of the corpus set to boundary integers", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        for n in &ints {
            let mut b = seeds[i].b.clone();
            b[p..p + 4].copy_from_slice(&n.to_le_bytes());
            th.check(&b);
        }
    });
}

/// The families of valid messages, at some sizes, truncated everywhere and with every 4-byte window overwritten.
pub fn scaled_faults(cx: &Cx) {
    let sizes: &[usize] = if cx.thorough { &[3, 10, 40, 150] } else { &[3, 12, 40] };
    let l: Vec<Vec<u8>> = scaled::makers().iter().flat_map(|m| sizes.iter().filter_map(|n| m.at(*n)).collect::<Vec<_>>()).filter(|b| b.len() < 6000).collect();
    let ints = [0, 1, 2, 255, 256, 65536, 0x0100_0000, i32::MAX, -1, i32::MIN];
    let jobs: Vec<(usize, usize)> = l.iter().enumerate().flat_map(|(i, b)| (1..b.len()).map(move |p| (i, p))).collect();
    cx.par("scaled messages truncated or overwritten at every position", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        th.check(&l[i][..p].to_vec());
        if p + 4 <= l[i].len() {
            for n in ints {
                let mut b = l[i].clone();
                b[p..p + 4].copy_from_slice(&i32::to_le_bytes(n));
                th.check(&b);
            }
        }
    });
}

/// Every span of the corpus (up to 24 bytes) removed, repeated, or moved behind another position.
pub fn spans(cx: &Cx) {
    let seeds = corpus::seeds();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (17..s.b.len()).map(move |p| (i, p))).collect();
    cx.par("every span of up to 24 bytes of the corpus removed or repeated", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        let o = &seeds[i].b;
        for n in 1..=24.min(o.len() - p) {
            let mut b = o.clone();
            b.drain(p..p + n);
            th.check(&b);
            let mut b = o.clone();
            let span = o[p..p + n].to_vec();
            b.splice(p..p, span);
            th.check(&b);
        }
    });
}

pub fn double_substitutions(cx: &Cx) {
    let vals: &[u8] = if cx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 127, 128, 255] } else { &[0, 1, 2, 6, 9, 10, 12, 255] };
    let max = if cx.thorough { 90 } else { 45 };
    let seeds: Vec<_> = corpus::seeds().into_iter().filter(|s| s.b.len() <= max).collect();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (0..s.b.len()).map(move |p| (i, p))).collect();
    cx.par("every pair of byte substitutions (selected values) in short corpus messages", jobs.len(), |th, i| {
        let (i, p) = jobs[i];
        let o = &seeds[i].b;
        for q in p + 1..o.len() {
            for x in vals {
                for y in vals {
                    let mut b = o.clone();
                    b[p] = *x;
                    b[q] = *y;
                    th.check(&b);
                }
            }
        }
    });
}

pub fn short_inputs(cx: &Cx) {
    cx.par("all byte strings of length 0 to 2", 65536 + 257, |th, i| match i {
        0 => th.check(&[]),
        1..=256 => th.check(&[(i - 1) as u8]),
        _ => th.check(&((i - 257) as u16).to_le_bytes()),
    });
    let n = if cx.thorough { 1 << 24 } else { 1 << 16 };
    cx.par("all byte strings of length 2 (thorough: 3) behind a header", n, |th, i| {
        let e = E::msg(1);
        th.check(&if cx.thorough { e.raw(&(i as u32).to_le_bytes()[..3]) } else { e.raw(&(i as u16).to_le_bytes()) }.0)
    });
    cx.par("all byte strings of length 2 between a header and a message end", 1 << 16, |th, i| {
        th.check(&E::msg(1).raw(&(i as u16).to_le_bytes()).end())
    });
}

// ------------------------------------------------------------------ C02: declared sizes

/// Every kind of declared size with values far beyond the data, in front of 0, 1 or many bytes of data.
pub fn declared_sizes(cx: &Cx) {
    let mut sizes: Vec<i32> = vec![0, 1, 2, 100, 1000, 5000];
    for p in 10..31 {
        sizes.extend([(1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    sizes.extend([i32::MAX, i32::MAX - 1, -1, i32::MIN, 100_000_000, 1_000_000_000]);
    let mut make: Vec<Box<dyn Fn(i32) -> E + Sync>> = vec![];
    make.push(Box::new(|n| E::msg(1).arr_obj(1, n)));
    make.push(Box::new(|n| E::msg(1).arr_str(1, n)));
    for t in PRIMS {
        make.push(Box::new(move |n| E::msg(1).arr_prim(1, n, t)));
        make.push(Box::new(move |n| E::msg(1).bin_arr(1, 0, &[n], &[], &t_prim(t))));
    }
    let slots: Vec<(u8, E)> = vec![t_str(), t_obj(), t_sys("A"), t_cls("A", 1), t_objarr(), t_strarr(), t_primarr(8), t_prim(2)];
    for t in slots.clone() {
        for k in 0..6u8 {
            let t = t.clone();
            make.push(Box::new(move |n| {
                E::msg(1).lib(1, "L").bin_arr(1, k, &[n], if k > 2 { &[0] } else { &[] }, &t)
            }));
        }
        for k in [2u8, 5] {
            for pos in 0..3 {
                for other in [0, 1, 2, 70000] {
                    let t = t.clone();
                    make.push(Box::new(move |n| {
                        let mut d = [other; 3];
                        d[pos] = n;
                        E::msg(1).lib(1, "L").bin_arr(1, k, &d, if k == 5 { &[0, 0, 0] } else { &[] }, &t)
                    }));
                }
            }
        }
    }
    // rank
    for k in [0u8, 2, 5] {
        make.push(Box::new(move |n| E::msg(1).u8(7).i32(1).u8(k).i32(n)));
        make.push(Box::new(move |n| E::msg(1).u8(7).i32(1).u8(k).i32(n).i32(1).i32(1)));
    }
    // member counts
    for tag in 2..6u8 {
        make.push(Box::new(move |n| E::msg(1).lib(1, "L").u8(tag).i32(1).s("A").i32(n)));
        make.push(Box::new(move |n| E::msg(1).lib(1, "L").u8(tag).i32(1).s("A").i32(n).s("m")));
        make.push(Box::new(move |n| E::msg(1).lib(1, "L").arr_obj(1, 1).u8(tag).i32(2).s("A").i32(n)));
    }
    // argument counts
    make.push(Box::new(|n| E::msg(0).call(0x12, "M", "T").i32(n)));
    make.push(Box::new(|n| E::msg(0).ret(0x12).i32(n)));
    make.push(Box::new(|n| E::msg(1).call(0x14, "M", "T").arr_obj(1, n)));
    // null runs
    make.push(Box::new(|n| E::msg(1).arr_obj(1, 3).nulls(n)));
    make.push(Box::new(|n| E::msg(1).arr_str(1, 3).nulls(n)));
    make.push(Box::new(|n| E::msg(1).sys(1, "A", &["m"]).nulls(n)));
    make.push(Box::new(|n| E::msg(1).bin_arr(1, 2, &[3, 1], &[], &t_str()).nulls(n)));
    // string lengths (any prefix width)
    fn prefix(n: i32) -> E {
        let mut e = E::new();
        let mut n = n as u32;
        while n > 0x7f {
            e = e.u8(n as u8 | 0x80);
            n >>= 7;
        }
        e.u8(n as u8)
    }
    make.push(Box::new(|n| E::msg(1).u8(6).i32(1).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).u8(12).i32(1).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).u8(2).i32(1).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).u8(4).i32(1).s("A").i32(1).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).u8(4).i32(1).s("A").i32(1).s("m").u8(3).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).arr_prim(1, 2, 5).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(1).arr_obj(1, 2).u8(6).i32(2).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(0).u8(21).i32(0x11).u8(18).cat(&prefix(n))));
    make.push(Box::new(|n| E::msg(0).u8(22).i32(0x811).u8(18).cat(&prefix(n))));
    // nested declarations: each one within the element of the one before
    for depth in [1usize, 2, 8, 64] {
        make.push(Box::new(move |n| {
            let mut e = E::msg(1).arr_obj(1, n);
            for d in 0..depth {
                e = e.u8(2).i32(d as i32 + 2).s("A").i32(1).s("m");
            }
            e.u8(2).i32(100).s("A").i32(n)
        }));
        make.push(Box::new(move |n| {
            let mut e = E::msg(1);
            for d in 0..depth {
                e = e.arr_obj(d as i32 + 1, 1).null();
            }
            e.arr_obj(100, n)
        }));
    }
    let tails: [Vec<u8>; 4] = [vec![], vec![11], vec![10; 40], vec![0; 600]];
    cx.par("declared sizes x values x data present", make.len() * sizes.len() * tails.len(), |th, mut i| {
        let t = pick(&mut i, tails.len());
        let n = pick(&mut i, sizes.len());
        let b = make[i](sizes[n]).raw(&tails[t]).0;
        th.check(&b);
    });
}

/// Memory for complete, valid messages grows linearly with their length.
/// Objects of a class with n members which re-use it, each the first member of the one before, and no end.
fn nested_wide(cx: &Cx) {
    let wide: Vec<usize> = vec![1, 2, 5, 16, 100, 500, 1000, 1170, 1200, 3000, 10_000, 65_536];
    let depth: Vec<i32> = vec![1, 3, 10, 30, 100, 300, 1000];
    cx.par("nested objects of a wide class", wide.len() * depth.len() * 5, |th, mut k| {
        let d = depth[pick(&mut k, depth.len())];
        let n = wide[pick(&mut k, wide.len())];
        let names: Vec<String> = (0..n).map(|i| if n > 2000 { String::new() } else { i.to_string() }).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let e = E::msg(1);
        let e = match k {
            0 => e.sys(1, "A", &names),
            1 => e.lib(1, "L").cls(1, "A", &names, 1),
            2 => e.syst(1, "A", &names, &vec![t_obj(); n]),
            3 => e.lib(1, "L").clst(1, "A", &names, &vec![t_sys("A"); n], 1),
            _ => e.sys(1, "A", &names[..1]),
        };
        // the last kind spells the class out at every level
        let e = match k {
            4 => (2..d.min(200_000 / n as i32).max(3)).fold(e, |e, id| e.sys(id, "A", &names)),
            _ => (2..d).fold(e, |e, id| e.byid(id, 1)),
        };
        th.check(&e.end());
    });
}

pub fn linear_memory(cx: &Cx) {
    nested_wide(cx);
    let mut sizes = vec![1usize, 3, 10, 30, 100, 300, 1000, 3000];
    if cx.thorough {
        sizes.extend([10_000, 30_000]);
    }
    let makers = scaled::makers();
    cx.par("memory of valid messages of growing size", makers.len() * sizes.len(), |th, mut i| {
        let n = sizes[pick(&mut i, sizes.len())];
        if let Some(b) = makers[i].at(n) {
            th.check(&b)
        }
    });
}

// ------------------------------------------------------------------ C03: primitives

/// Raw bytes of values of a type, exhaustively for small types, by pattern for wide ones.
pub fn prim_patterns(t: u8, thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    match t {
        1 | 2 | 10 => (0..=255u8).for_each(|b| v.push(vec![b])),
        7 | 14 => (0..=65535u16).for_each(|n| v.push(n.to_le_bytes().to_vec())),
        3 => {
            let step = if thorough { 1 } else { 7 };
            for c in (0..0x11_0000u32).filter(|c| *c < 0x3000 || c % step == 0 || c & 0xfff >= 0xffc || c & 0xfff < 4) {
                if let Some(c) = char::from_u32(c) {
                    v.push(c.to_string().into_bytes())
                }
            }
            // everything that is no character
            for b in 0x80..=255u8 {
                v.push(vec![b]);
                for c in 0..=255u8 {
                    if std::str::from_utf8(&[b, c]).is_err() {
                        v.push(vec![b, c])
                    }
                }
            }
            for b in 0xe0..=0xf7u8 {
                for c in (0..=255u8).filter(|c| c % 16 == 0 || c % 16 == 15) {
                    for d in [0, 0x41, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
                        v.push(vec![b, c, d]);
                        for e in [0, 0x7f, 0x80, 0xbf, 0xc0] {
                            v.push(vec![b, c, d, e])
                        }
                    }
                }
            }
        }
        5 => {
            let alpha: &[u8] = b"0 19-.+e";
            let max = if thorough { 6 } else { 4 };
            for n in 0..=max {
                for mut i in 0..alpha.len().pow(n) {
                    let t: Vec<u8> = (0..n).map(|_| alpha[pick(&mut i, alpha.len())]).collect();
                    v.push(lps(&t))
                }
            }
            // every length and scale, plain and negative
            for digits in 1..=30 {
                for scale in 0..=29 {
                    for d in ["1", "9", "4"] {
                        for sign in ["", "-"] {
                            let d = d.repeat(digits);
                            let t = if scale == 0 {
                                format!("{sign}{d}")
                            } else if scale < digits {
                                format!("{sign}{}.{}", &d[..digits - scale], &d[digits - scale..])
                            } else {
                                format!("{sign}0.{}{d}", "0".repeat(scale - digits))
                            };
                            v.push(lps(t.as_bytes()))
                        }
                    }
                }
            }
            let max = "79228162514264337593543950335";
            for p in 1..29 {
                for sign in ["", "-"] {
                    v.push(lps(format!("{sign}{}.{}", &max[..p], &max[p..]).as_bytes()));
                    v.push(lps(format!("{sign}0.{}{}", "0".repeat(p - 1), &max[..29 - p]).as_bytes()));
                }
            }
            for k in 0..96 {
                for d in [0u128, 1] {
                    for scale in [0, 1, 9, 27, 28] {
                        let m = format!("{:0>29}", (1u128 << k) - d);
                        let (i, f) = m.split_at(29 - scale);
                        let i = match i.trim_start_matches('0') { "" => "0", i => i };
                        v.push(lps(if f.is_empty() { i.to_string() } else { format!("{i}.{f}") }.as_bytes()))
                    }
                }
            }
            for t in ["79228162514264337593543950335", "-79228162514264337593543950335", "NaN", "Infinity", "0x10", "1 000", "１", "--1", "1.0.0", "abc", "\0", "1\0"] {
                v.push(lps(t.as_bytes()))
            }
        }
        _ => {
            let w = model::prim_size(t).unwrap();
            let base: Vec<Vec<u8>> = vec![vec![0; w], vec![255; w]];
            for b in &base {
                for p in 0..w {
                    for x in 0..=255u8 {
                        let mut b = b.clone();
                        b[p] = x;
                        v.push(b);
                    }
                }
                // pairs of bits
                for i in 0..w * 8 {
                    for j in 0..i {
                        let mut b = b.clone();
                        b[i / 8] ^= 1 << (i % 8);
                        b[j / 8] ^= 1 << (j % 8);
                        v.push(b);
                    }
                }
            }
            for n in 0..65536u32 {
                if n % 5 == 0 || thorough || !(64..65472).contains(&n) {
                    for sh in (0..w * 8 - 15).step_by(16) {
                        v.push((u64::from(n) << sh).to_le_bytes()[..w].to_vec());
                    }
                    v.push((n as i16 as i64 as u64).to_le_bytes()[..w].to_vec());
                }
            }
            let seq: Vec<u8> = (1..=w as u8).collect();
            v.push(seq.iter().rev().copied().collect());
            v.push(seq);
            for e in 0..2048u64 {
                for m in [0u64, 1, 0x8_0000_0000_0000, 0x7_ffff_ffff_ffff, 0xf_ffff_ffff_ffff] {
                    for sg in [0u64, 1] {
                        if w == 8 {
                            v.push(((sg << 63) | (e << 52) | m).to_le_bytes().to_vec())
                        } else if e < 256 {
                            v.push((((sg << 31) | (e << 23)) as u32 | (m >> 29) as u32 & 0x7f_ffff | (m & 1) as u32).to_le_bytes().to_vec())
                        }
                    }
                }
            }
        }
    }
    v
}

fn decode(t: u8, b: &[u8]) -> Option<RVal> {
    macro_rules! le {
        ($ty:ty) => {
            <$ty>::from_le_bytes(b.try_into().ok()?)
        };
    }
    Some(match t {
        1 => match b {
            [0] => RVal::Bool(false),
            [1] => RVal::Bool(true),
            _ => return None,
        },
        2 => RVal::Byte(b[0]),
        3 => {
            let s = std::str::from_utf8(b).ok()?;
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => RVal::Char(c),
                _ => return None,
            }
        }
        5 => {
            let s = std::str::from_utf8(&b[1..]).ok()?;
            if !model::canonical_decimal(s) {
                return None;
            }
            RVal::Dec(s.into())
        }
        6 => RVal::F64(le!(u64)),
        7 => RVal::I16(le!(i16)),
        8 => RVal::I32(le!(i32)),
        9 => RVal::I64(le!(i64)),
        10 => RVal::I8(b[0] as i8),
        11 => RVal::F32(le!(u32)),
        12 => RVal::TimeSpan(le!(i64)),
        13 => RVal::DateTime(le!(i64)),
        14 => RVal::U16(le!(u16)),
        15 => RVal::U32(le!(u32)),
        16 => RVal::U64(le!(u64)),
        _ => unreachable!(),
    })
}

pub const POSITIONS: [&str; 11] = [
    "typed member", "typed member of a library class, by id", "self-describing member", "primitive array", "general array, single",
    "general array, rectangular", "object array", "call argument", "return value", "return argument", "first of two arrays",
];

/// A message with this raw value at this position, followed by data that shows where reading went on.
pub fn prim_at(pos: usize, t: u8, b: &[u8]) -> (Vec<u8>, Box<dyn Fn(RVal) -> RMsg>) {
    let obj = |members: Vec<(&str, RVal)>| {
        RVal::Obj(RObj { class: "A".into(), lib: None, members: members.into_iter().map(|(n, v)| (n.to_string(), v)).collect() })
    };
    match pos {
        0 => (
            E::msg(1).syst(1, "A", &["x", "y"], &[t_prim(t), t_str()]).raw(b).string(2, "after").end(),
            Box::new(move |v| val(obj(vec![("x", v), ("y", s("after"))]))),
        ),
        1 => (
            E::msg(3).lib(7, "Lib").clst(2, "A", &["x", "y"], &[t_prim(t), t_prim(8)], 7).raw(b).i32(1).byid(3, 2).raw(b).i32(77).end(),
            Box::new(move |v| {
                let RVal::Obj(mut o) = obj(vec![("x", v), ("y", RVal::I32(77))]) else { unreachable!() };
                o.lib = Some("Lib".into());
                val(RVal::Obj(o))
            }),
        ),
        2 => (
            E::msg(1).sys(1, "A", &["x", "y"]).typed(t, b).string(2, "after").end(),
            Box::new(move |v| val(obj(vec![("x", v), ("y", s("after"))]))),
        ),
        3 => (
            E::msg(1).arr_prim(1, 2, t).raw(b).raw(b).string(2, "after").end(),
            Box::new(|v| val(RVal::Arr(vec![v.clone(), v]))),
        ),
        4 => (
            E::msg(1).bin_arr(1, 0, &[2], &[], &t_prim(t)).raw(b).raw(b).string(2, "after").end(),
            Box::new(|v| val(RVal::Arr(vec![v.clone(), v]))),
        ),
        5 => (
            E::msg(1).bin_arr(1, 5, &[1, 2], &[0, 9], &t_prim(t)).raw(b).raw(b).end(),
            Box::new(|v| val(RVal::Arr(vec![RVal::Arr(vec![v.clone(), v])]))),
        ),
        6 => (
            E::msg(1).arr_obj(1, 2).typed(t, b).string(2, "after").end(),
            Box::new(|v| val(RVal::Arr(vec![v, s("after")]))),
        ),
        7 => (
            E::msg(0).call(0x12, "M", "T").i32(2).u8(t).raw(b).u8(18).s("after").end(),
            Box::new(|v| RMsg::Call { name: "M".into(), ty: "T".into(), ctx: None, args: Some(vec![v, s("after")]) }),
        ),
        8 => (
            E::msg(0).ret(0x822).u8(t).raw(b).sc("ctx").i32(1).u8(18).s("after").end(),
            Box::new(|v| RMsg::Ret { ret: Some(v), ctx: Some("ctx".into()), args: Some(vec![s("after")]) }),
        ),
        9 => (
            E::msg(0).ret(0x12).i32(2).u8(t).raw(b).u8(18).s("after").end(),
            Box::new(|v| RMsg::Ret { ret: None, ctx: None, args: Some(vec![v, s("after")]) }),
        ),
        _ => (
            E::msg(2).arr_prim(1, 1, t).raw(b).arr_prim(2, 1, t).raw(b).end(),
            Box::new(|v| val(RVal::Arr(vec![v]))),
        ),
    }
}

pub fn primitives(cx: &Cx, types: &[u8], suite: &'static str) {
    let pats: Vec<(u8, Vec<Vec<u8>>)> = types.iter().map(|t| (*t, prim_patterns(*t, cx.thorough))).collect();
    let jobs: Vec<(usize, usize)> =
        pats.iter().enumerate().flat_map(|(i, p)| (0..p.1.len().div_ceil(64)).map(move |k| (i, k))).collect();
    cx.par(suite, jobs.len(), |th, i| {
        let (i, k) = jobs[i];
        let t = pats[i].0;
        for b in pats[i].1[k * 64..].iter().take(64) {
            let want = decode(t, b);
            for pos in 0..POSITIONS.len() {
                let (msg, f) = prim_at(pos, t, b);
                match &want {
                    Some(v) => th.check_known(&msg, &f(v.clone())),
                    None => th.check(&msg),
                }
            }
        }
    });
}

/// Many values in one array, so that arrays of distinct values are decoded too (thorough: every 32-bit pattern).
pub fn prim_bulk(cx: &Cx) {
    let n: usize = if cx.thorough { 65536 } else { 64 };
    cx.par("arrays of consecutive 32-bit patterns", n, |th, i| {
        let hi = if cx.thorough { i as u32 } else { (i as u32).wrapping_mul(0x0401) };
        for t in [8u8, 15, 11] {
            let mut e = E::msg(1).arr_prim(1, 65536, t);
            e.0.reserve(65536 * 4);
            for lo in 0..65536u32 {
                e.0.extend_from_slice(&((hi << 16) | lo).to_le_bytes());
            }
            bulk_check(th, &e.end(), t, 0, 4, 65536);
        }
    });
    cx.par("arrays of values with one byte varied", PRIMS.len() * 8, |th, mut i| {
        let t = PRIMS[pick(&mut i, PRIMS.len())];
        if let Some(w) = model::prim_size(t) {
            if i < w && t != 1 {
                let mut e = E::msg(1).arr_prim(1, 1024, t);
                for k in 0..1024u32 {
                    let mut b = vec![(k >> 8) as u8 * 85; w];
                    b[i] = k as u8;
                    e = e.raw(&b);
                }
                th.check(&e.end());
            }
        }
    });
}

/// The elements of a large primitive array, compared without building the model's value.
fn bulk_check(th: &mut Th<'_>, b: &[u8], t: u8, start: usize, w: usize, n: usize) {
    use nrbf::{RemotingMessage, Value};
    let data = 17 + 10 + start;
    let (r, _) = crate::harness::supervised(th.suite, b, || RemotingMessage::parse(b).map_err(|e| e.to_string()));
    th.st.nodes += 1;
    th.st.transitions += n as u64 + 8;
    let ok = match &r {
        Ok(Ok(RemotingMessage::Value(Value::Array(a)))) if a.len() == n => a.iter().enumerate().all(|(i, v)| {
            let raw = u32::from_le_bytes(b[data + i * w..data + i * w + 4].try_into().unwrap());
            match (t, v) {
                (8, Value::Int32(x)) => *x == raw as i32,
                (15, Value::UInt32(x)) => *x == raw,
                (11, Value::Single(x)) => x.to_bits() == raw,
                _ => false,
            }
        }),
        _ => false,
    };
    if ok {
        th.st.accepts += 1;
        th.count("accepted")
    } else {
        th.violation("parse".into(), b, format!("array of type {t} is not decoded element by element"))
    }
}

// ------------------------------------------------------------------ C04: strings

pub const STR_POS: usize = 31;
/// A message with this encoded string (prefix included) at a position where strings may occur.
pub fn str_at(pos: usize, x: &[u8]) -> Vec<u8> {
    match pos {
        0 => E::msg(1).u8(6).i32(1).raw(x).end(),
        1 => E::msg(1).arr_obj(1, 2).u8(6).i32(2).raw(x).r(2).end(),
        2 => E::msg(1).arr_str(1, 2).u8(6).i32(2).raw(x).string(3, "z").end(),
        3 => E::msg(1).syst(1, "A", &["a", "b"], &[t_str(), t_prim(8)]).u8(6).i32(2).raw(x).i32(7).end(),
        4 => E::msg(1).u8(2).i32(1).raw(x).i32(1).s("m").int(1).end(),
        5 => E::msg(1).u8(2).i32(1).s("A").i32(2).raw(x).s("other!").int(1).int(2).end(),
        6 => E::msg(1).u8(12).i32(1).raw(x).cls(1, "A", &["m"], 1).int(1).end(),
        7 => E::msg(1).u8(4).i32(1).s("A").i32(2).s("m").s("n").u8(3).u8(0).raw(x).u8(8).null().i32(3).end(),
        8 => E::msg(1).lib(1, "L").u8(5).i32(1).s("A").i32(1).s("m").u8(4).raw(x).i32(1).i32(1).null().end(),
        9 => E::msg(0).u8(21).i32(0x11).u8(18).raw(x).sc("T").end(),
        10 => E::msg(0).u8(21).i32(0x11).sc("M").u8(18).raw(x).end(),
        11 => E::msg(0).call(0x22, "M", "T").u8(18).raw(x).i32(1).u8(2).u8(9).end(),
        12 => E::msg(0).call(0x12, "M", "T").i32(2).u8(18).raw(x).u8(2).u8(9).end(),
        13 => E::msg(0).ret(0x811).u8(18).raw(x).end(),
        14 => E::msg(1).lib(1, "L").bin_arr(1, 0, &[1], &[], &(4, E::new().raw(x).i32(1))).null().string(2, "t").end(),
        // around an array: the only member of an object, and its class, as root, argument or return value
        15 => E::msg(1).u8(2).i32(1).s("A").i32(1).raw(x).r(6).arr_obj(6, 2).int(1).int(2).end(),
        16 => E::msg(0).call(0x18, "M", "T").arr_obj(1, 1).u8(2).i32(5).s("A").i32(1).raw(x).r(6).arr_obj(6, 1).int(1).end(),
        17 => E::msg(0).call(0x18, "M", "T").arr_obj(1, 1).u8(2).i32(5).raw(x).i32(1).s("_items").r(6).arr_obj(6, 1).int(1).end(),
        18 => E::msg(0).ret(0x414).arr_obj(1, 1).u8(2).i32(5).s("A").i32(1).raw(x).r(6).arr_obj(6, 1).int(1).end(),
        19 => E::msg(0).ret(0x414).arr_obj(1, 1).u8(2).i32(5).raw(x).i32(1).s("m_value").r(6).arr_obj(6, 1).int(1).end(),
        20 => E::msg(0).call(0x14, "M", "T").arr_obj(1, 2).u8(6).i32(2).raw(x).u8(2).i32(5).raw(x).i32(0).end(),
        21 => E::msg(1).u8(12).i32(1).raw(x).clst(1, "A", &["m", "n"], &[t_prim(8), t_str()], 1).i32(1).string(2, "t").end(),
        22 => E::msg(1).arr_obj(1, 3).u8(12).i32(1).raw(x).clst(2, "A", &["m"], &[t_prim(8)], 1).i32(1).byid(3, 2).i32(2).cls(4, "B", &[], 1).end(),
        23 => E::msg(1).lib(1, "L").clst(1, "A", &["m"], &[(4, E::new().s("B").i32(2))], 1).u8(12).i32(2).raw(x).clst(2, "B", &["n"], &[t_prim(2)], 2).u8(9).end(),
        24 => E::msg(0).call(0x18, "M", "T").arr_obj(1, 1).u8(12).i32(1).raw(x).clst(2, "A", &["m"], &[t_prim(8)], 1).i32(1).end(),
        25 => E::msg(1).lib(1, "L").u8(5).i32(1).raw(x).i32(1).s("m").raw(&[0]).u8(8).i32(1).i32(5).end(),
        26 => E::msg(1).lib(1, "L").u8(5).i32(1).s("A").i32(1).raw(x).raw(&[0]).u8(8).i32(1).i32(5).end(),
        27 => E::msg(1).u8(4).i32(1).raw(x).i32(1).s("m").raw(&[0]).u8(8).i32(5).end(),
        28 => E::msg(1).lib(1, "L").u8(3).i32(1).raw(x).i32(1).s("m").i32(1).int(5).end(),
        29 => E::msg(1).lib(1, "L").u8(3).i32(1).s("A").i32(1).raw(x).i32(1).int(5).end(),
        _ => E::msg(0).call(0x48, "M", "T").arr_obj(1, 2).r(3).u8(6).i32(2).raw(x).arr_str(3, 1).u8(6).i32(4).raw(x).end(),
    }
}

pub fn string_lengths(cx: &Cx) {
    let l = if cx.thorough { ladder(1100, (1 << 21) + 2) } else { ladder(300, 1 << 15) };
    let l: Vec<usize> = if cx.thorough { l } else { [l, vec![65535, 65536, (1 << 21) - 1, 1 << 21]].concat() };
    cx.par("string positions x lengths", l.len() * STR_POS, |th, mut i| {
        let pos = pick(&mut i, STR_POS);
        let n = l[l.len() - 1 - i];
        if n > 70000 && pos > 3 && !cx.thorough {
            return;
        }
        let ascii: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        th.check(&str_at(pos, &lps(&ascii)));
        // multi-byte characters, the last one ending exactly at the end
        if n >= 4 {
            let mut t: Vec<u8> = ascii;
            t[n - 4..].copy_from_slice("𝄞".as_bytes());
            t[..2].copy_from_slice("é".as_bytes());
            if n >= 6 {
                th.check(&str_at(pos, &lps(&t)));
            }
            // ... and cut in the middle
            let cut = [lps(&vec![b'x'; n])[..lps(&vec![0; n]).len() - n].to_vec(), vec![b'x'; n - 3], vec![0xf0, 0x9d, 0x84, 0x9e]].concat();
            th.check(&str_at(pos, &cut));
        }
    });
}

pub fn string_prefixes(cx: &Cx) {
    // every encoding of short lengths in 1..5 bytes, with all values of the last byte
    let mut enc: Vec<Vec<u8>> = vec![];
    for width in 1..=5usize {
        for n in [0u32, 1, 2, 127, 128, 300] {
            let mut p: Vec<u8> = (0..width).map(|i| ((n >> (7 * i)) & 0x7f) as u8 | 0x80).collect();
            *p.last_mut().unwrap() &= 0x7f;
            let want = (0..width).map(|i| ((n >> (7 * i)) & 0x7f) << (7 * i)).sum::<u32>();
            enc.push([p.clone(), vec![b'q'; want as usize]].concat());
            for last in 0..=255u8 {
                let mut p = p.clone();
                *p.last_mut().unwrap() = last;
                enc.push([p.clone(), vec![b'q'; want as usize]].concat());
            }
        }
    }
    for n in [1u32 << 7, 1 << 14, 1 << 21] {
        for d in [n - 1, n, n + 1] {
            enc.push(lps(&vec![b'q'; d as usize]));
        }
    }
    // six-byte prefixes
    enc.push([vec![0x80, 0x80, 0x80, 0x80, 0x80, 0], vec![]].concat());
    enc.push([vec![0x81, 0x80, 0x80, 0x80, 0x80, 0], b"q".to_vec()].concat());
    enc.push(vec![0xff, 0xff, 0xff, 0xff, 0x07]);
    enc.push(vec![0xff, 0xff, 0xff, 0xff, 0x0f]);
    enc.push(vec![0xff; 8]);
    cx.par("string positions x prefix encodings", enc.len() * STR_POS, |th, mut i| {
        let pos = pick(&mut i, STR_POS);
        if enc[i].len() > 70000 && pos > 3 {
            return;
        }
        th.check(&str_at(pos, &enc[i]))
    });
}

/// Strings whose length ends within a character, of which all bytes are there.
fn cut_characters(cx: &Cx) {
    let mut chars: Vec<char> = vec![];
    let mut last = None;
    for c in (0x80..=0x10ffffu32).filter_map(char::from_u32) {
        let lead = c.to_string().as_bytes()[0];
        if last.is_some_and(|(l, _)| l != lead) {
            chars.extend(last.map(|(_, c)| c));
        }
        if last.is_none_or(|(l, _)| l != lead) {
            chars.push(c)
        }
        last = Some((lead, c));
    }
    chars.extend(last.map(|(_, c)| c));
    let heads = [0usize, 1, 2, 3, 7, 126, 127, 300];
    cx.par("lengths that end within a character", chars.len() * heads.len() * STR_POS * 3, |th, mut k| {
        let pos = pick(&mut k, STR_POS);
        let tail = ["", "z", "é"][pick(&mut k, 3)];
        let head = heads[pick(&mut k, heads.len())];
        let c = chars[k];
        let text = ["h".repeat(head), c.to_string(), tail.to_string()].concat();
        for cut in 1..=c.len_utf8() + tail.len() {
            let n = text.len() - tail.len() - c.len_utf8() + cut;
            let p = lps(&vec![0; n]);
            th.check(&str_at(pos, &[&p[..p.len() - n], text.as_bytes()].concat()));
        }
    });
}

pub fn string_utf8(cx: &Cx) {
    cut_characters(cx);
    let mut v: Vec<Vec<u8>> = vec![];
    (0..=255u8).for_each(|b| v.push(vec![b]));
    (0..=65535u16).for_each(|n| v.push(n.to_be_bytes().to_vec()));
    let b3: Vec<u8> = vec![0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xff];
    for a in 0xe0..=0xffu8 {
        for b in 0..=255u8 {
            for c in &b3 {
                v.push(vec![a, b, *c]);
                if a >= 0xf0 {
                    for d in [0x7f, 0x80, 0xbf, 0xc0] {
                        v.push(vec![a, b, *c, d]);
                        v.push(vec![b'a', a, b, *c, d, b'z']);
                    }
                }
            }
        }
    }
    let all = cx.thorough;
    cx.par("all one- and two-byte strings, boundary strings of three and four bytes", v.len(), |th, i| {
        let x = lps(&v[i]);
        for pos in 0..STR_POS {
            if all || i < 256 || pos == i % STR_POS || pos == 0 {
                th.check(&str_at(pos, &x))
            }
        }
    });
}

/// Strings whose content could be mistaken for something else, or could tempt a reader to normalise it.
pub fn words() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "x", "X", "_x", "m_x", "x_", "<x>k__BackingField", "k__BackingField", "<>k__BackingField", "<x>", "A+x", "Base+x", "x+A", "A.x", ".x", "x.", " x", "x ", " ", "\t", "\n", "x\n", "\r\n", "x\t", "\0", "x\0",
        "\0x", "x\0y", "\u{feff}", "\u{feff}x", "x\u{feff}", "\u{a0}x", "\u{200b}x", "\u{2028}", "é", "e\u{301}", "É", "ß", "ss", "ﬁ", "fi", "İ", "i", "I", "ı", "ｘ", "𝄞", "\u{fffd}", "\u{ffff}", "\u{10ffff}",
        "null", "Null", "nil", "None", "true", "True", "TRUE", "false", "0", "1", "-1", "+1", "01", "1.0", "1,0", "NaN", "Infinity", "∞", "\"x\"", "'x'", "\\x", "\\u0041", "&amp;", "%41", "{0}", "$type", "@x", "#x", "x,y", "x, y", "x;y",
        "`", "`1", "x`1", "x`", "x``1", "[]", "x[]", "x[,]", "x*", "x&", "_items", "_size", "_version", "m_value", "M_value", "m_Value", "value__", "_value", "value", "Value",
        "System", "System.", "System.String", "System.Object", "System.Int32", "System.Int32 ", " System.Int32", "system.int32", "System.Int32`1", "System.Int32[]", "System.Boolean", "System.Decimal", "System.DateTime", "System.TimeSpan",
        "System.Nullable`1", "System.Array", "System.Enum", "System.Collections.Generic.List", "System.Collections.Generic.List`1", "System.Collections.Generic.List`1[[System.Int32, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089]]",
        "System.Collections.Generic.List`2", "System.Collections.Generic.list`1", "System.Collections.Generic.Dictionary`2", "System.Collections.Generic.Dictionary`2[[System.String],[System.Int32]]", "System.Collections.ArrayList", "System.Collections.Generic.KeyValuePair`2",
        "mscorlib", "mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089", "MSCORLIB", "System.Private.CoreLib", "netstandard", "System, Version=4.0.0.0",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("a".repeat(127));
    v.push("a".repeat(128));
    v.push("é".repeat(64));
    v.push("é".repeat(8192));
    v
}

/// Names, each with every name that differs from it in one place: a character removed, inserted, replaced by another
/// (of one to four bytes), in the other case, or everything behind it removed.
pub fn edited_names() -> Vec<(String, String)> {
    let bases = [
        "System.Int32", "System.Boolean", "System.Char", "System.Byte", "System.SByte", "System.Int16", "System.UInt16", "System.UInt32", "System.Int64", "System.UInt64",
        "System.Single", "System.Double", "System.Collections.Generic.List`1", "System.Collections.Generic.List`1[[System.Int32, mscorlib]]", "System.String", "m_value", "_items", "_size", "_version", "x",
        "mscorlib, Version=4.0.0.0, Culture=neutral", "Ns.Outer+Inner`2[[A, L],[B, M]]", "<x>k__BackingField", "Base+m_value",
    ];
    let mut v = vec![];
    for b in bases {
        let mut add = |x: String| {
            if x != b {
                v.push((b.to_string(), x))
            }
        };
        for p in 0..=b.len() {
            let (h, t) = b.split_at(p);
            add(h.into());
            add(t.into());
            for c in ["ß", "€", "𝄞", "x", "`", ".", ",", " ", "\0", "+", "1", "_", "é"] {
                add(format!("{h}{c}{t}"));
                add(format!("{h}{c}"));
                add(format!("{c}{t}"));
                if !t.is_empty() {
                    add(format!("{h}{c}{}", &t[1..]));
                }
            }
            if !t.is_empty() {
                add(format!("{h}{}", &t[1..]));
                let (c, t) = t.split_at(1);
                add(format!("{h}{}{t}", c.to_uppercase()));
                add(format!("{h}{}{t}", c.to_lowercase()));
                add(format!("{h}{c}{c}{t}"));
            }
        }
        add(b.to_uppercase());
        add(b.to_lowercase());
        add(format!("{b}{b}"));
    }
    v.sort();
    v.dedup();
    v
}

/// Names in which a wide character begins at every position.
pub fn wide_names() -> Vec<String> {
    let mut v = vec![];
    for head in ["", "System.", "System.Collections.Generic.", "<", "_"] {
        for n in 0..140 {
            for c in ["ß", "€", "𝄞"] {
                for tail in ["", "yyyyyyyyyyyy", "`1[[System.Int32]]"] {
                    v.push(format!("{head}{}{c}{tail}", "x".repeat(n)));
                }
            }
        }
    }
    v
}

/// Fragments that names are made of, or that could make a reader cut a name short.
const FRAGMENTS: [&str; 30] = [
    "A", "a", ".", "System", "Int32", "List", "`1", "`", "[[", "]]", "[]", "+", ", ", "Version=1.0.0.0", "PublicKeyToken=null", "mscorlib", "<", ">", "<>f__AnonymousType0", "k__BackingField", "_", "m_", "0", " ", "\0", "\n", "\u{feff}",
    "é", "𝄞", "*&",
];

/// Every sequence of fragments up to a length, in every place.
fn composed_names(cx: &Cx) {
    let (n, len) = (FRAGMENTS.len(), if cx.thorough { 4 } else { 3 });
    let total: usize = (1..=len).map(|l| n.pow(l)).sum();
    cx.par("every sequence of name fragments in every position", total, |th, mut k| {
        let mut l = 1;
        while k >= n.pow(l) {
            k -= n.pow(l);
            l += 1
        }
        let x: String = (0..l).map(|_| FRAGMENTS[pick(&mut k, n)]).collect();
        let x = lps(x.as_bytes());
        for pos in 0..STR_POS {
            th.check(&str_at(pos, &x));
        }
    });
}

/// Assembly names with every combination of parts, bare and behind a type's name, in every place.
fn assembly_names(cx: &Cx) {
    let names = ["App", "mscorlib", "System", "A.B", "App.dll", "\"App\"", ""];
    let versions = ["", ", Version=0.0.0.0", ", Version=1.0.0.0", ", Version=4.0.0.0", ", Version=1.0", ",Version=1.2.3.4"];
    let cultures = ["", ", Culture=neutral", ", Culture=", ", Culture=en-US", ", Culture=null"];
    let tokens = ["", ", PublicKeyToken=null", ", PublicKeyToken=neutral", ", PublicKeyToken=", ", PublicKeyToken=b77a5c561934e089", ", PublicKey=00"];
    let more = ["", ", ProcessorArchitecture=MSIL", ", Retargetable=Yes", ", Custom=null", ","];
    let types = ["", "Ns.T, ", "Ns.T`1[[System.Int32, ", "System.Int32, ", "System.String, ", "System.Collections.Generic.List`1[[System.Int32, "];
    let n = names.len() * versions.len() * cultures.len() * tokens.len() * more.len();
    cx.par("every assembly name in every position", n * types.len() * 2, |th, mut k| {
        let head = types[pick(&mut k, types.len())];
        let backwards = pick(&mut k, 2) == 1;
        let name = names[pick(&mut k, names.len())];
        let mut parts = [versions[pick(&mut k, versions.len())], cultures[pick(&mut k, cultures.len())], tokens[pick(&mut k, tokens.len())]];
        if backwards {
            parts.reverse()
        }
        let tail = if head.contains("[[") { "]]" } else { "" };
        let x = format!("{head}{name}{}{}{tail}", parts.concat(), more[k]);
        let x = lps(x.as_bytes());
        for pos in 0..STR_POS {
            // a type's name only where there may be one
            if head.is_empty() || pos % 3 == k % 3 || th.cx.thorough {
                th.check(&str_at(pos, &x));
            }
        }
    });
}

/// Special strings in every place a string may occur, and pairs of them where two names meet.
pub fn vocabulary(cx: &Cx) {
    let w = words();
    let n = w.len();
    let wide = wide_names();
    cx.par("wide characters at every position of names", wide.len() * STR_POS, |th, mut k| {
        let pos = pick(&mut k, STR_POS);
        th.check(&str_at(pos, &lps(wide[k].as_bytes())))
    });
    composed_names(cx);
    assembly_names(cx);
    let edited = edited_names();
    cx.par("names and names that differ in one place", edited.len() * 2, |th, mut k| {
        let swap = pick(&mut k, 2) == 1;
        let (x, y) = (&edited[k].0, &edited[k].1);
        let (x, y) = if swap { (y, x) } else { (x, y) };
        pair_of_names(th, x, y)
    });
    cx.par("special strings in every position", n * STR_POS, |th, mut k| {
        let pos = pick(&mut k, STR_POS);
        th.check(&str_at(pos, &lps(w[k].as_bytes())))
    });
    cx.par("pairs of special names", n * n, |th, mut k| {
        let x = &w[pick(&mut k, n)];
        let y = &w[k];
        pair_of_names(th, x, y)
    });
}

fn pair_of_names(th: &mut Th, x: &str, y: &str) {
        // class and library, two members, two libraries, two classes
        th.check(&E::msg(1).lib(1, y).cls(1, x, &["m"], 1).int(1).end());
        th.check(&E::msg(1).sys(1, "A", &[x, y]).int(1).int(2).end());
        th.check(&E::msg(1).syst(1, x, &[y], &[t_prim(2)]).u8(9).end());
        th.check(&E::msg(1).arr_obj(1, 3).lib(1, x).cls(2, "A", &[], 1).lib(2, y).cls(3, "A", &[], 2).byid(4, 2).end());
        th.check(&E::msg(1).arr_obj(1, 4).sys(2, x, &[]).sys(3, y, &[]).byid(4, 2).byid(5, 3).end());
        // declared and actual class and library
        th.check(&E::msg(1).syst(1, "A", &["m"], &[t_sys(x)]).sys(2, y, &[]).end());
        th.check(&E::msg(1).lib(1, "L").clst(1, "A", &["m"], &[(4, E::new().s(x).i32(1))], 1).cls(2, y, &[], 1).end());
        th.check(&E::msg(1).lib(1, x).clst(1, "A", &["m"], &[(4, E::new().s("B").i32(1))], 1).lib(2, y).cls(2, "B", &[], 2).end());
        // strings and method names
        th.check(&E::msg(1).arr_str(1, 3).string(2, x).string(3, y).r(2).end());
        th.check(&E::msg(0).call(0x11, x, y).end());
        th.check(&E::msg(0).call(0x22, x, "T").sc(y).i32(1).sc(x).end());
        th.check(&E::msg(0).ret(0x822).sc(x).sc(y).i32(1).sc(y).end());
}

// ------------------------------------------------------------------ C05: framing

pub fn header(cx: &Cx) {
    let ints = interesting_ints();
    let n = ints.len();
    let body = |root: i32| E::new().string(if root == 0 { 1 } else { root }, "x").0;
    cx.par("header fields: all combinations of boundary values", n * n * 12 * 12, |th, mut i| {
        let vers = [0, 1, 2, -1, 256, 257, 65536, 65537, 0x0100_0000, 0x0100_0001, i32::MAX, i32::MIN];
        let root = ints[pick(&mut i, n)];
        let hid = ints[pick(&mut i, n)];
        let major = vers[pick(&mut i, 12)];
        let minor = vers[i];
        let e = E::new().u8(0).i32(root).i32(hid).i32(major).i32(minor);
        th.check(&e.clone().raw(&body(root)).end());
        if root == 0 {
            th.check(&e.call(0x11, "M", "T").end());
        }
    });
    cx.par("header: every value of every byte", 17 * 256, |th, mut i| {
        let p = pick(&mut i, 17);
        for root in [1, 3] {
            let mut b = E::msg(root).string(1, "x").arr_obj(3, 1).null().end();
            b[p] = i as u8;
            th.check(&b);
            let mut b = E::msg(root).call(0x14, "M", "T").arr_obj(root, 1).int(1).end();
            b[p] = i as u8;
            th.check(&b);
        }
    });
    // every version pair of bytes around 1.0
    cx.par("header: two bytes of the version", 28 * 256, |th, mut i| {
        let pair = pick(&mut i, 28);
        let mut k = 0;
        for a in 0..8 {
            for c in 0..a {
                if k == pair {
                    for y in [0u8, 1, 2, 128, 255] {
                        let mut b = E::msg(1).string(1, "x").end();
                        b[9 + a] = i as u8;
                        b[9 + c] = y;
                        th.check(&b);
                    }
                }
                k += 1;
            }
        }
    });
}

pub fn trailing(cx: &Cx) {
    let seeds = corpus::seeds();
    cx.par("corpus messages followed by every one or (one message) two bytes", seeds.len() * 257, |th, mut i| {
        let x = pick(&mut i, 257);
        let mut b = seeds[i].b.clone();
        if x == 256 {
            let o = b.clone();
            b.extend(&o);
            th.check(&b);
            b.truncate(o.len());
            b.extend([11, 11, 11]);
            th.check(&b);
            b.truncate(o.len());
            b.extend(vec![0; 100]);
            th.check(&b);
            return;
        }
        b.push(x as u8);
        th.check(&b);
        if i % 9 == 0 {
            b.push(0);
            for y in 0..=255u8 {
                *b.last_mut().unwrap() = y;
                th.check(&b);
            }
        }
        // a record behind the end, closed by another end
        let mut b = seeds[i].b.clone();
        b.extend(E::new().u8(x as u8).i32(99).raw(&[0]).end());
        th.check(&b);
    });
    // padding of every size
    let mut sizes: Vec<usize> = (1..=600).collect();
    for n in [1usize << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 16] {
        sizes.extend(n - 40..=n + 40)
    }
    let fills: [&[u8]; 14] = [&[0], &[255], b" ", b"\n", b"\r\n", &[11], &[26], &[10], &[0xcc], &[0, 255], b"=", b"\0\0\0\x01", &[0xef, 0xbb, 0xbf], &[13, 1]];
    let bases = [E::msg(1).string(1, "x").end(), E::msg(1).arr_prim(1, 300, 2).raw(&[7; 300]).end(), E::msg(0).call(0x11, "M", "T").end(), E::msg(1).arr_obj(1, 1).int(11).end()];
    cx.par("messages padded to every size", sizes.len() * fills.len(), |th, mut i| {
        let f = fills[pick(&mut i, fills.len())];
        for base in &bases {
            let mut b = base.clone();
            b.extend(f.iter().cycle().take(sizes[i]));
            th.check(&b);
        }
    });
    let texts: [&[u8]; 16] = [
        b"EOF", b"\r\n\r\n", b"\r\n.\r\n", b"--boundary--\r\n", b"\0EOF", b"{}", b"</xml>", b"\x1a\0\0\0", &[11, 0, 0, 0], b".NET\x01\0", b"\x01\0\0\0", &[255, 255, 255, 255], b"\xef\xbb\xbf", &[0x80], &[12, 1, 0, 0, 0, 0], &[4, 0, 0, 0, 0],
    ];
    cx.par("corpus messages followed by other data or messages", seeds.len() * (texts.len() + seeds.len()), |th, mut i| {
        let x = pick(&mut i, texts.len() + seeds.len());
        let mut b = seeds[i].b.clone();
        b.extend(texts.get(x).copied().unwrap_or_else(|| &seeds[x - texts.len()].b));
        th.check(&b);
        // a part of another message
        if x >= texts.len() {
            b.pop();
            th.check(&b);
            let n = seeds[i].b.len();
            for k in [18, 17, 16, 5, 1] {
                b.truncate((n + k).min(b.len()));
                th.check(&b)
            }
        }
    });
    // the message end missing, doubled or moved
    cx.par("message end at every position", seeds.len(), |th, i| {
        let o = &seeds[i].b;
        for p in 0..o.len() {
            let mut b = o[..p].to_vec();
            b.push(11);
            th.check(&b);
            let mut b = o.clone();
            b.insert(p, 11);
            th.check(&b);
        }
    });
}

/// Concatenations and nestings of two corpus messages.
pub fn splices(cx: &Cx) {
    let seeds = corpus::seeds();
    let n = seeds.len();
    cx.par("head of one corpus message, tail of another (record boundaries not respected)", n * n, |th, mut i| {
        let (a, b) = (pick(&mut i, n), i);
        let (a, b) = (&seeds[a].b, &seeds[b].b);
        for p in [17, 22, a.len() / 2, a.len() - 1] {
            for q in [0, 17, b.len() / 2, b.len() - 1] {
                if p <= a.len() && q <= b.len() {
                    th.check(&[&a[..p], &b[q..]].concat())
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C06: classes

/// A member slot with its data, and the value it yields. `k` makes names and ids unique.
fn member_kinds() -> Vec<(&'static str, (u8, E), fn(i32) -> E, fn(i32) -> RVal)> {
    vec![
        ("int", t_prim(8), |k| E::new().i32(100 + k), |k| RVal::I32(100 + k)),
        ("byte", t_prim(2), |_| E::new().u8(12), |_| RVal::Byte(12)),
        ("char", t_prim(3), |_| E::new().raw("€".as_bytes()), |_| RVal::Char('€')),
        ("dec", t_prim(5), |k| E::new().s(&format!("{k}.50")), |k| RVal::Dec(format!("{k}.50"))),
        ("str", t_str(), |k| E::new().string(50 + k, &format!("s{k}")), |k| s(&format!("s{k}"))),
        ("str null", t_str(), |_| E::new().null(), |_| RVal::Null),
        ("str ref", t_str(), |_| E::new().r(40), |_| s("forty")),
        ("obj int", t_obj(), |k| E::new().int(k), RVal::I32),
        ("obj str", t_obj(), |k| E::new().string(50 + k, ""), |_| s("")),
        ("obj class", t_obj(), |k| E::new().sys(50 + k, "I", &["q", "r"]).int(k).null(), |k| {
            RVal::Obj(RObj { class: "I".into(), lib: None, members: vec![("q".into(), RVal::I32(k)), ("r".into(), RVal::Null)] })
        }),
        ("sys", t_sys("I"), |k| E::new().syst(50 + k, "I", &["q"], &[t_prim(2)]).u8(k as u8), |k| {
            RVal::Obj(RObj { class: "I".into(), lib: None, members: vec![("q".into(), RVal::Byte(k as u8))] })
        }),
        ("class", t_cls("J", 2), |k| E::new().clst(50 + k, "J", &[], &[], 2), |_| {
            RVal::Obj(RObj { class: "J".into(), lib: Some("Second".into()), members: vec![] })
        }),
        ("class null run of one", t_cls("J", 2), |_| E::new().nulls8(1), |_| RVal::Null),
        ("objarr null", t_objarr(), |_| E::new().nulls(1), |_| RVal::Null),
        ("primarr ref", t_primarr(8), |k| E::new().r(60 + k), |k| RVal::Arr(vec![RVal::I32(k)])),
        ("strarr null", t_strarr(), |_| E::new().null(), |_| RVal::Null),
        ("lib in front", t_obj(), |k| E::new().lib(20 + k, "X").null(), |_| RVal::Null),
    ]
}

pub fn class_shapes(cx: &Cx) {
    let kinds = member_kinds();
    let n = kinds.len();
    let max = if cx.thorough { 4 } else { 3 };
    let mut total = 0;
    let mut sizes = vec![];
    for m in 0..=max {
        sizes.push(n.pow(m));
        total += n.pow(m) * 4;
    }
    cx.par("member combinations x class record forms", total, |th, i| {
        let mut i = i;
        let form = pick(&mut i, 4);
        let mut m = 0;
        while i >= sizes[m] {
            i -= sizes[m];
            m += 1;
        }
        let names = ["a", "bb", "é", "d"];
        let mut ks = vec![];
        for _ in 0..m {
            ks.push(pick(&mut i, n));
        }
        let typed = form >= 2;
        if !typed && ks.iter().any(|k| *k < 4) {
            return;
        }
        let lib = form % 2 == 1;
        let mut e = E::msg(1).lib(1, "First").lib_if(2, "Second");
        let types: Vec<(u8, E)> = ks.iter().map(|k| kinds[*k].1.clone()).collect();
        e = match form {
            0 => e.sys(1, "Cls", &names[..m]),
            1 => e.cls(1, "Cls", &names[..m], 1),
            2 => e.syst(1, "Cls", &names[..m], &types),
            _ => e.clst(1, "Cls", &names[..m], &types, 1),
        };
        let mut want = vec![];
        for (j, k) in ks.iter().enumerate() {
            e = e.cat(&kinds[*k].2(j as i32));
            want.push((names[j].to_string(), kinds[*k].3(j as i32)));
        }
        e = e.string(40, "forty");
        for (j, k) in ks.iter().enumerate() {
            if kinds[*k].0 == "primarr ref" {
                e = e.arr_prim(60 + j as i32, 1, 8).i32(j as i32);
            }
        }
        let want = val(RVal::Obj(RObj { class: "Cls".into(), lib: lib.then(|| "First".into()), members: want }));
        th.check_known(&e.end(), &want);
    });
}

impl E {
    /// A second library, in front of an object that needs none.
    fn lib_if(self, id: i32, name: &str) -> Self {
        self.cls(99, "Filler", &[], 1).lib(id, name)
    }
}

pub fn class_sizes(cx: &Cx) {
    let l = if cx.thorough { ladder(600, 70_000) } else { ladder(300, 2049) };
    cx.par("member counts x class record forms", l.len() * 6, |th, mut i| {
        let form = pick(&mut i, 6);
        let n = l[l.len() - 1 - i];
        let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let mut types = vec![];
        for j in 0..n {
            types.push(match j % 3 {
                0 => t_prim(8),
                1 => t_obj(),
                _ => t_prim(7),
            });
        }
        let e = E::msg(1).lib(3, "L");
        let e = match form {
            0 => e.sys(2, "C", &names),
            1 => e.cls(2, "C", &names, 3),
            2 | 4 => e.syst(2, "C", &names, &types),
            _ => e.clst(2, "C", &names, &types, 3),
        };
        let typed = form >= 2;
        let fill = |mut e: E, x: i32| {
            for j in 0..n {
                e = if typed {
                    match j % 3 {
                        0 => e.i32(j as i32 + x),
                        1 if j % 2 == 1 => e.null(),
                        1 => e.int(j as i32 + x),
                        _ => e.raw(&(j as i16).to_le_bytes()),
                    }
                } else if j % 2 == 0 {
                    e.int(j as i32 + x)
                } else {
                    e.null()
                }
            }
            e
        };
        let e = fill(e, 0);
        let e = fill(e.byid(4, 2), 7);
        th.check(&e.arr_obj(1, 3).r(4).r(2).int(1).end());
    });
}

/// Every combination of library definitions, class library ids and class names, top-level and nested.
pub fn class_libs(cx: &Cx) {
    let ids = [1, 2, 3];
    let names = ["L", "M", "L", ""];
    cx.par("libraries x class library ids", 4usize.pow(3) * 64 * 2, |th, mut i| {
        let lib_names: Vec<&str> = (0..3).map(|_| names[pick(&mut i, 4)]).collect();
        let uses: Vec<i32> = (0..3).map(|_| [1, 2, 3, 0][pick(&mut i, 4)]).collect();
        let nested = i == 1;
        let mut e = E::msg(1).arr_obj(1, 3);
        for (j, id) in ids.iter().enumerate() {
            e = e.lib(*id, lib_names[j]);
            if nested {
                e = e.sys(20 + j as i32, "Outer", &["in"]);
            }
            let u = uses[j];
            e = if u == 0 { e.sys(10 + j as i32, "C", &["x"]) } else { e.cls(10 + j as i32, "C", &["x"], u) };
            e = e.int(j as i32);
        }
        th.check(&e.end());
    });
}

/// Classes whose members are declared with classes of other libraries, each possibly undefined, and re-uses of them.
pub fn class_libs_typed(cx: &Cx) {
    let own = [1, 2, 3, 4, 0]; // the class's library; 4 is not defined, 0 is a system class
    let decl = [1, 2, 3, 4, 5, 6, 7]; // what a member is declared as: class of library 1..4, system class, string, Int32
    let val = [0, 1, 2, 3, 4]; // what it is: nothing, an object of library 1, 2 or 3, a system object
    let n = own.len() * decl.len() * decl.len() * val.len() * val.len() * 3 * 3;
    cx.par("library classes x classes declared for their members", n, |th, mut i| {
        let own = own[pick(&mut i, own.len())];
        let d = [decl[pick(&mut i, 7)], decl[pick(&mut i, 7)]];
        let v = [val[pick(&mut i, 5)], val[pick(&mut i, 5)]];
        let reuse = pick(&mut i, 3);
        let names = [["L1", "L2", "L3"], ["L1", "L1", "L3"], ["L", "L, Version=1", ""]][i];
        let ty = |d: i32| match d {
            1..=4 => t_cls("C", d),
            5 => t_sys("C"),
            6 => t_str(),
            _ => t_prim(8),
        };
        // a library may stand before each record
        let e = E::msg(1).lib(1, names[0]).arr_obj(1, 3 + reuse as i32).lib(2, names[1]).int(0).lib(3, names[2]).int(0);
        let types = [ty(d[0]), ty(d[1])];
        let fill = |mut e: E, base: i32| {
            for k in 0..2 {
                let id = base + k as i32;
                e = match (d[k], v[k]) {
                    (6, 0) => e.null(),
                    (6, _) => e.string(id, "s"),
                    (7, _) => e.i32(id),
                    (_, 0) => e.null(),
                    (_, 4) => e.syst(id, "C", &["a"], &[t_str()]).null(),
                    (_, l) => e.clst(id, "C", &["a"], &[t_str()], l).null(),
                };
            }
            e
        };
        let start = |e: E, id: i32| if own == 0 { e.syst(id, "O", &["a", "b"], &types) } else { e.clst(id, "O", &["a", "b"], &types, own) };
        let e = match reuse {
            0 => fill(start(e, 2), 10),
            1 => {
                let e = fill(start(e, 2), 10);
                fill(e.byid(3, 2), 20)
            }
            _ => {
                // a class without declared types of the same library between
                let e = fill(start(e, 2), 10).cls(4, "O", &["a"], 3).int(1);
                fill(e.byid(3, 2), 20)
            }
        };
        th.check(&e.end());
    });
}

// ------------------------------------------------------------------ C07: classes by id

pub fn class_reuse(cx: &Cx) {
    // a sequence of objects, each of which defines one of six shapes or names an earlier object
    let len = if cx.thorough { 6 } else { 5 };
    let shapes = 5;
    let opts = shapes + len; // define shape k, or re-use object j (maybe undefined, or itself a re-use)
    let opts: usize = opts;
    let total = opts.pow(len as u32);
    cx.par("sequences of class definitions and re-uses", total * 2, |th, mut i| {
        let ids = if pick(&mut i, 2) == 0 { [2, 3, 4, 5, 6, 7, 8] } else { [7, -3, 300, 2, 65538, -1, 9] };
        let mut e = E::msg(1).lib(1, "L").arr_obj(1, 0).lib(2, "M");
        let mut shape_of: Vec<Option<usize>> = vec![];
        for j in 0..len {
            let o = pick(&mut i, opts);
            let id = ids[j];
            let sh = if o < shapes {
                e = match o {
                    0 => e.sys(id, "A", &["x"]),
                    1 => e.syst(id, "B", &["i", "s"], &[t_prim(8), t_str()]),
                    2 => e.cls(id, "A", &["y", "z"], 2),
                    3 => e.clst(id, "C", &["b", "c"], &[t_prim(2), t_cls("C", 1)], 1),
                    _ => e.clst(id, "E", &[], &[], 2),
                };
                Some(o)
            } else {
                let k = o - shapes;
                e = e.byid(id, ids[k]);
                shape_of.get(k).copied().flatten().or(shape_of.iter().rev().copied().flatten().next())
            };
            match sh {
                Some(0) => e = e.int(j as i32),
                Some(1) => e = e.i32(j as i32).string(100 + j as i32, "s"),
                Some(2) => e = e.null().int(j as i32),
                Some(3) => e = e.u8(j as u8).null(),
                Some(_) => (),
                None => e = e.int(1),
            }
            shape_of.push(if o < shapes { sh } else { None });
        }
        // the objects are unreachable from the root; look at each of them by making it the root
        let b = e.end();
        for id in &ids[..len] {
            let mut b = b.clone();
            if *id > 0 {
                b[1..5].copy_from_slice(&id.to_le_bytes());
                th.check(&b);
            }
        }
    });
}

pub fn class_reuse_nested(cx: &Cx) {
    // objects A{x: ?} nested up to depth 3, each level defining or re-using, in member or element position
    let depth = if cx.thorough { 5 } else { 4 };
    let opts = 7usize;
    cx.par("nested definitions and re-uses", opts.pow(depth as u32 * 2 - 2), |th, mut i| {
        let mut e = E::msg(1).lib(1, "L").arr_obj(1, 2 * depth - 2);
        let mut next = 2;
        let mut defs: Vec<(i32, usize)> = vec![];
        for _ in 0..2 * depth - 2 {
            let o = pick(&mut i, opts);
            let id = next;
            next += 1;
            // definition whose member is filled by a nested definition, then by re-uses
            match o {
                0 => {
                    e = e.sys(id, "A", &["x"]).int(id);
                    defs.push((id, 0));
                }
                1 => {
                    e = e.sys(id, "A", &["x"]).sys(next, "B", &["y", "z"]).null().int(id);
                    defs.push((id, 0));
                    defs.push((next, 1));
                    next += 1;
                }
                2 => {
                    e = e.clst(id, "N", &["v", "n"], &[t_prim(8), t_cls("N", 1)], 1).i32(id).byid(next, id).i32(-id).null();
                    defs.push((id, 2));
                    next += 1;
                }
                3 => {
                    e = e.syst(id, "A", &["x"], &[t_prim(7)]).raw(&[id as u8, 1]);
                    defs.push((id, 3));
                }
                k => {
                    let d = if k == 4 { defs.first() } else if k == 5 { defs.last() } else { defs.get(defs.len() / 2) };
                    match d {
                        None => e = e.null(),
                        Some((d, sh)) => {
                            e = e.byid(id, *d);
                            e = match sh {
                                0 => e.int(id),
                                1 => e.int(id).string(500 + id, "q"),
                                2 => {
                                    let x = next;
                                    next += 1;
                                    e.i32(id).byid(x, *d).i32(9).null()
                                }
                                _ => e.raw(&[3, id as u8]),
                            }
                        }
                    }
                }
            }
        }
        th.check(&e.end());
    });
}

pub fn class_reuse_scale(cx: &Cx) {
    let l = if cx.thorough { ladder(520, 20_000) } else { ladder(260, 1030) };
    cx.par("n definitions, each re-used once in another order", l.len() * 3, |th, mut i| {
        let order = pick(&mut i, 3);
        let n = l[l.len() - 1 - i] as i32;
        let mut e = E::msg(1).arr_obj(1, 2 * n);
        for k in 0..n {
            let m = format!("m{k}");
            e = if k % 2 == 0 {
                e.syst(k + 2, &format!("C{k}"), &[&m], &[t_prim(8)]).i32(k)
            } else {
                e.sys(k + 2, &format!("C{k}"), &[&m, "o"]).int(k).null()
            };
        }
        for k in 0..n {
            let d = match order {
                0 => k,
                1 => n - 1 - k,
                _ => (k * 7 + 3) % n,
            };
            e = e.byid(n + 2 + k, d + 2);
            e = if d % 2 == 0 { e.i32(-k) } else { e.null().int(k) };
        }
        th.check(&e.end());
    });
    // ids that differ in one bit
    let mut ids = vec![];
    for base in [1i32, 2, 3, 0x55] {
        for bit in 0..32 {
            ids.push((base, base ^ (1i32 << bit)));
            ids.push((base ^ (1i32 << bit), base));
            ids.push((base, base.wrapping_neg()));
        }
    }
    let ids: Vec<(i32, i32)> = ids.into_iter().filter(|(a, b)| *a != 0 && *b != 0 && a != b && *a != 90 && *b != 90).collect();
    cx.par("class ids which differ in a single bit", ids.len() * 4, |th, mut i| {
        let what = pick(&mut i, 4);
        let (a, b) = ids[i];
        let e = E::msg(1000);
        let e = match what {
            0 => e.sys(a, "A", &["x"]).int(1).sys(b, "B", &["y", "z"]).int(2).int(3).byid(1000, a).int(4),
            1 => e.sys(a, "A", &["x"]).int(1).sys(b, "B", &["y", "z"]).int(2).int(3).byid(1000, b).int(4).int(5),
            // only one of them is defined
            2 => e.sys(a, "A", &["x"]).int(1).byid(1000, b).int(4),
            _ => e.sys(1000, "A", &["x"]).int(1).byid(a, 1000).int(2).byid(b, 1000).int(3),
        };
        if a != 1000 && b != 1000 {
            th.check(&e.end())
        }
    });
}

// ------------------------------------------------------------------ C08: arrays

/// An element of a kind of array, and its value.
fn array_kinds() -> Vec<(&'static str, Box<dyn Fn(i32, i32) -> E + Sync>, fn(i32) -> E, fn(i32) -> RVal, bool)> {
    let mut v: Vec<(&'static str, Box<dyn Fn(i32, i32) -> E + Sync>, fn(i32) -> E, fn(i32) -> RVal, bool)> = vec![
        ("obj ints", Box::new(|id, n| E::new().arr_obj(id, n)), |k| E::new().int(k), RVal::I32, true),
        ("obj strings", Box::new(|id, n| E::new().arr_obj(id, n)), |k| E::new().string(1000 + k, "s"), |_| s("s"), true),
        ("obj refs", Box::new(|id, n| E::new().arr_obj(id, n)), |_| E::new().r(90), |_| s("ninety"), true),
        ("obj objects", Box::new(|id, n| E::new().arr_obj(id, n)), |k| E::new().sys(1000 + k, "A", &["m"]).int(k), |k| {
            RVal::Obj(RObj { class: "A".into(), lib: None, members: vec![("m".into(), RVal::I32(k))] })
        }, true),
        ("str", Box::new(|id, n| E::new().arr_str(id, n)), |k| E::new().string(1000 + k, "é"), |_| s("é"), true),
        ("str refs", Box::new(|id, n| E::new().arr_str(id, n)), |_| E::new().r(90), |_| s("ninety"), true),
    ];
    let fixed: Vec<(u8, E, fn(i32) -> E, fn(i32) -> RVal, bool, &'static str)> = vec![
        (1, E::new(), |k| E::new().string(1000 + k, "t"), |_| s("t"), true, "general str"),
        (2, E::new(), |k| E::new().int(k), RVal::I32, true, "general obj"),
        (3, t_sys("A").1, |k| E::new().sys(1000 + k, "A", &["m"]).int(k), |k| RVal::Obj(RObj { class: "A".into(), lib: None, members: vec![("m".into(), RVal::I32(k))] }), true, "general sys"),
        (4, t_cls("A", 1).1, |k| E::new().cls(1000 + k, "A", &["m"], 1).int(k), |k| RVal::Obj(RObj { class: "A".into(), lib: Some("L".into()), members: vec![("m".into(), RVal::I32(k))] }), true, "general class"),
        (5, E::new(), |k| E::new().r(200 + k), |k| RVal::Arr(vec![RVal::Byte(k as u8)]), true, "general objarr"),
        (6, E::new(), |k| E::new().r(200 + k), |k| RVal::Arr(vec![RVal::Byte(k as u8)]), true, "general strarr"),
        (7, t_primarr(2).1, |k| E::new().r(200 + k), |k| RVal::Arr(vec![RVal::Byte(k as u8)]), true, "general primarr"),
        (0, t_prim(8).1, |k| E::new().i32(k), RVal::I32, false, "general prim"),
    ];
    for (t, info, el, va, nulls, name) in fixed {
        for kind in [0u8, 1, 3, 4, 2] {
            let info = info.clone();
            v.push((
                name,
                Box::new(move |id, n| E::new().bin_arr(id, kind, &[n], if kind > 2 { &[5] } else { &[] }, &(t, info.clone()))),
                el,
                va,
                nulls,
            ));
        }
    }
    v.push(("prim i32", Box::new(|id, n| E::new().arr_prim(id, n, 8)), |k| E::new().i32(k), RVal::I32, false));
    v.push(("prim byte", Box::new(|id, n| E::new().arr_prim(id, n, 2)), |k| E::new().u8(k as u8), |k| RVal::Byte(k as u8), false));
    v.push(("prim char", Box::new(|id, n| E::new().arr_prim(id, n, 3)), |_| E::new().raw("é".as_bytes()), |_| RVal::Char('é'), false));
    v.push(("prim dec", Box::new(|id, n| E::new().arr_prim(id, n, 5)), |k| E::new().s(&k.to_string()), |k| RVal::Dec(k.to_string()), false));
    v.push(("prim u64", Box::new(|id, n| E::new().arr_prim(id, n, 16)), |k| E::new().i32(k).i32(0), |k| RVal::U64(k as u64), false));
    v
}

pub fn array_runs(cx: &Cx) {
    let kinds = array_kinds();
    let max = if cx.thorough { 7 } else { 5 };
    // an array of length n, filled by tokens: element, null, run-8 of 1.., run-32 of 1.., runs that are too long or 0
    cx.par("array kinds x lengths x first token", kinds.len() * (max + 1) * 16, |th, mut i| {
        let kind = &kinds[pick(&mut i, kinds.len())];
        let n = pick(&mut i, max + 1);
        let first = i;
        fn go(th: &mut Th<'_>, kind: &(&str, Box<dyn Fn(i32, i32) -> E + Sync>, fn(i32) -> E, fn(i32) -> RVal, bool), n: usize, e: &E, want: &mut Vec<RVal>, first: Option<usize>) {
            let left = n - want.len();
            if left == 0 {
                if first.is_some_and(|f| f > 0) {
                    return;
                }
                let mut e = E::msg(1).lib(1, "L").cat(&(kind.1)(1, n as i32)).cat(e);
                for (k, v) in want.iter().enumerate() {
                    if matches!(v, RVal::Arr(_)) {
                        e = e.arr_prim(200 + k as i32, 1, 2).u8(k as u8);
                    }
                }
                th.check_known(&e.string(90, "ninety").end(), &val(RVal::Arr(want.clone())));
                return;
            }
            let mut tok = |idx: usize, f: &mut dyn FnMut(&mut Th<'_>, &mut Vec<RVal>)| {
                if first.is_none_or(|x| x == idx) {
                    f(th, want)
                }
            };
            let k = n - left;
            tok(0, &mut |th, want| {
                want.push((kind.3)(k as i32));
                go(th, kind, n, &e.clone().cat(&(kind.2)(k as i32)), want, None);
                want.pop();
            });
            if !kind.4 {
                return;
            }
            tok(1, &mut |th, want| {
                want.push(RVal::Null);
                go(th, kind, n, &e.clone().null(), want, None);
                want.pop();
            });
            for c in 1..=left {
                for wide in [0, 1] {
                    tok(2 * c + wide, &mut |th, want| {
                        want.extend(vec![RVal::Null; c]);
                        let e = if wide == 1 { e.clone().nulls(c as i32) } else { e.clone().nulls8(c as u8) };
                        go(th, kind, n, &e, want, None);
                        want.truncate(want.len() - c);
                    });
                }
            }
            // runs that do not fit: the rest is complete
            tok(1, &mut |th, want| {
                let mut bad = vec![];
                for c in [left + 1, left + 2, 255] {
                    bad.push(e.clone().nulls8(c as u8));
                    bad.push(e.clone().nulls(c as i32));
                }
                for c in [0, -1, i32::MIN, i32::MAX, 256, 65536] {
                    bad.push(e.clone().nulls(c));
                }
                bad.push(e.clone().nulls8(0));
                for b in bad {
                    let head = E::msg(1).lib(1, "L").cat(&(kind.1)(1, n as i32)).cat(&b);
                    let mut tails = vec![E::new(), E::new().nulls(left as i32)];
                    let mut t = E::new();
                    for j in 0..left {
                        t = t.cat(&(kind.2)((k + j) as i32));
                    }
                    tails.push(t);
                    for t in tails {
                        let mut e = head.clone().cat(&t);
                        if matches!((kind.3)(0), RVal::Arr(_)) {
                            for j in 0..n {
                                e = e.arr_prim(200 + j as i32, 1, 2).u8(j as u8);
                            }
                        }
                        th.check(&e.string(90, "ninety").end());
                    }
                }
                let _ = want;
            });
        }
        go(th, kind, n, &E::new(), &mut vec![], Some(first));
    });
}

pub fn array_lengths(cx: &Cx) {
    let kinds = array_kinds();
    let l = if cx.thorough { ladder(600, 70_000) } else { ladder(300, 4097) };
    cx.par("array kinds x lengths", kinds.len() * l.len(), |th, mut i| {
        let kind = &kinds[pick(&mut i, kinds.len())];
        let n = l[l.len() - 1 - i] as i32;
        let mut e = E::msg(1).lib(1, "L").cat(&(kind.1)(1, n));
        let mut refs = false;
        for k in 0..n {
            refs |= matches!((kind.3)(k), RVal::Arr(_));
            e = e.cat(&(kind.2)(k));
        }
        if refs {
            if n > 790 {
                return; // ids would collide
            }
            for k in 0..n {
                e = e.arr_prim(200 + k, 1, 2).u8(k as u8);
            }
        }
        // the next record shows where the array ended
        if n < 1000 - 90 || !refs {
            th.check(&e.clone().string(90, "ninety").end());
        }
        if kind.4 {
            for c in [1, 2, 254, 255, 256, 257, 65535, 65536] {
                if c <= n {
                    // a run at the start, in the middle and at the end
                    for at in [0, (n - c) / 2, n - c] {
                        let mut e = E::msg(1).lib(1, "L").cat(&(kind.1)(1, n));
                        if at > 0 {
                            e = e.nulls(at);
                        }
                        e = if c < 256 { e.nulls8(c as u8) } else { e.nulls(c) };
                        for k in at + c..n.min(at + c + 3) {
                            e = e.cat(&(kind.2)(k));
                        }
                        if n > at + c + 3 {
                            e = e.nulls(n - at - c - 3);
                        }
                        if refs {
                            for k in at + c..n.min(at + c + 3) {
                                e = e.arr_prim(200 + k, 1, 2).u8(k as u8);
                            }
                        }
                        th.check(&e.string(90, "ninety").end());
                    }
                }
            }
        }
    });
}

/// Element counts that do not match the declared length.
pub fn array_miscounts(cx: &Cx) {
    let kinds = array_kinds();
    cx.par("array kinds x declared lengths x elements present", kinds.len() * 10 * 8, |th, mut i| {
        let kind = &kinds[pick(&mut i, kinds.len())];
        let declared = [0, 1, 2, 3, 4, 5, 6, -1, i32::MIN, 255][pick(&mut i, 10)];
        let present = i as i32;
        let mut e = E::msg(1).lib(1, "L").cat(&(kind.1)(1, declared));
        for k in 0..present {
            e = e.cat(&(kind.2)(k));
        }
        for k in 0..8 {
            e = e.arr_prim(200 + k, 1, 2).u8(k as u8);
        }
        th.check(&e.clone().string(90, "ninety").end());
        th.check(&e.null().string(90, "ninety").end());
    });
}

// ------------------------------------------------------------------ C09: ranks and shapes

pub fn shapes(cx: &Cx) {
    let mut all: Vec<Vec<i32>> = vec![];
    let max_rank = if cx.thorough { 6 } else { 5 };
    for r in 1..=max_rank {
        let top = if r <= 3 { 5 } else if r <= 4 { 4 } else { 3 };
        for mut i in 0..(top as usize).pow(r) {
            let d: Vec<i32> = (0..r).map(|_| pick(&mut i, top) as i32).collect();
            if d.iter().product::<i32>() <= 130 {
                all.push(d);
            }
        }
    }
    for r in [7usize, 8, 16, 31, 32, 33, 64, 100] {
        all.push(vec![1; r]);
        for p in [0, r / 2, r - 1] {
            let mut d = vec![1; r];
            d[p] = 3;
            all.push(d.clone());
            d[p] = 0;
            all.push(d);
        }
    }
    let big = if cx.thorough { 70_000 } else { 700 };
    for d in [vec![2, big], vec![big, 2], vec![1, big], vec![big, 1], vec![1, 1, big], vec![big, 1, 1], vec![255, 2], vec![256, 2], vec![2, 256], vec![16, 16, 2], vec![17, 3, 5]] {
        all.push(d);
    }
    // kinds: rectangular, rectangular with bounds; the others only where the rank is 1
    let bounds = [0, 1, -1, 5, i32::MAX, i32::MIN];
    cx.par("array shapes x bounds x element types", all.len() * 14, |th, mut i| {
        let v = pick(&mut i, 14);
        let d = &all[i];
        let n: i32 = d.iter().product();
        let (kind, bs): (u8, Vec<i32>) = match v {
            0 | 7 | 11 => (2, vec![]),
            1..=6 => (5, vec![bounds[v - 1]; d.len()]),
            8 | 12 => (5, (0..d.len()).map(|i| i as i32 + 1).collect()),
            9 => (5, d.clone()),
            10 if d.len() == 1 => (3, vec![7]),
            13 if d.len() == 1 => (0, vec![]),
            _ => return,
        };
        let ty = match v {
            7 | 8 => t_str(),
            11 => t_obj(),
            12 => t_sys("A"),
            _ => t_prim(8),
        };
        let mut e = E::msg(1).bin_arr(1, kind, d, &bs, &ty);
        let mut leaves = vec![];
        for k in 0..n {
            let (x, y) = match v {
                7 | 8 => (E::new().string(10 + k, "w"), s("w")),
                11 => (E::new().int(k), RVal::I32(k)),
                12 => (E::new().sys(10 + k, "A", &[]), RVal::Obj(RObj { class: "A".into(), lib: None, members: vec![] })),
                _ => (E::new().i32(k), RVal::I32(k)),
            };
            e = e.cat(&x);
            leaves.push(y);
        }
        let b = e.string(9, "after").end();
        if n == 0 || bs.iter().any(|b| *b < 0) {
            // shape of an array without elements; negative bounds may be refused
            return th.check(&b);
        }
        // expectation built by index arithmetic, not by splitting
        fn nest(d: &[i32], leaves: &[RVal]) -> RVal {
            if d.is_empty() {
                return leaves[0].clone();
            }
            let sub: usize = d[1..].iter().product::<i32>() as usize;
            RVal::Arr((0..d[0] as usize).map(|i| nest(&d[1..], &leaves[i * sub..(i + 1) * sub])).collect())
        }
        th.check_known(&b, &val(nest(d, &leaves)));
    });
}

/// Null runs at all places of small multi-dimensional arrays, crossing rows.
pub fn shape_runs(cx: &Cx) {
    let dims: Vec<Vec<i32>> = vec![vec![2, 3], vec![3, 2], vec![1, 5], vec![2, 2, 2], vec![1, 2, 3], vec![6], vec![2, 1, 3], vec![4, 2], vec![2, 4]];
    let max: usize = if cx.thorough { 8 } else { 6 };
    // tokens of size 1 (element, null) or c (runs): all compositions
    cx.par("null run compositions x shapes x element types", dims.len() * 4 * 64, |th, mut i| {
        let d = &dims[pick(&mut i, dims.len())];
        let ty = pick(&mut i, 4);
        let prefix = i;
        let n = d.iter().product::<i32>() as usize;
        if n > max {
            return;
        }
        let (t, el): ((u8, E), fn(i32) -> E) = match ty {
            0 => (t_str(), |k| E::new().string(10 + k, "w")),
            1 => (t_obj(), |k| E::new().int(k)),
            2 => (t_sys("A"), |k| E::new().sys(10 + k, "A", &["k"]).int(k)),
            _ => (t_primarr(2), |_| E::new().null()),
        };
        let kind = if ty % 2 == 0 { 2 } else { 5 };
        let head = E::msg(1).bin_arr(1, kind, d, if kind == 5 { &[0, 0, 0][..d.len()] } else { &[] }, &t);
        fn go(th: &mut Th<'_>, e: E, done: usize, n: usize, el: fn(i32) -> E, pre: &mut Vec<usize>) {
            if done == n {
                return th.check(&e.string(9, "after").end());
            }
            let forced = pre.pop();
            let left = n - done;
            for c in 0..8usize {
                if forced.is_some_and(|f| f != c) {
                    continue;
                }
                let mut pre = pre.clone();
                match c {
                    0 => go(th, e.clone().cat(&el(done as i32)), done + 1, n, el, &mut pre),
                    1 => go(th, e.clone().null(), done + 1, n, el, &mut pre),
                    c if c <= left => {
                        let e = if (c + done) % 2 == 0 { e.clone().nulls8(c as u8) } else { e.clone().nulls(c as i32) };
                        go(th, e, done + c, n, el, &mut pre)
                    }
                    // one too many
                    c if c == left + 1 => {
                        th.check(&e.clone().nulls8(c as u8).string(9, "after").end());
                        th.check(&e.clone().nulls(c as i32).end());
                    }
                    _ => (),
                }
            }
        }
        go(th, head, 0, n, el, &mut vec![prefix % 8, prefix / 8]);
    });
}

pub fn shape_limits(cx: &Cx) {
    let l = [0, 1, 2, 65535, 65536, 65537, 46341, 1 << 20, 1 << 24, 1 << 30, i32::MAX, -1, i32::MIN];
    cx.par("extreme dimension products", l.len().pow(3) * 3, |th, mut i| {
        let k = [2u8, 5, 0][pick(&mut i, 3)];
        let d: Vec<i32> = (0..3).map(|_| l[pick(&mut i, l.len())]).collect();
        let b = [0, 0, 0];
        for t in [t_prim(2), t_obj(), t_str()] {
            th.check(&E::msg(1).bin_arr(1, k, &d, if k > 2 { &b } else { &[] }, &t).end());
            let e = E::msg(1).bin_arr(1, k, &d, if k > 2 { &b } else { &[] }, &t).raw(&[10; 6]);
            th.check(&e.end());
            let mut d4 = d.clone();
            d4.push(d[0]);
            d4.push(d[1]);
            th.check(&E::msg(1).bin_arr(1, k, &d4, if k > 2 { &[0; 5] } else { &[] }, &t).end());
        }
    });
    cx.par("ranks", 140, |th, i| {
        for kind in 0..6u8 {
            let r = match i {
                0..=129 => i as i32,
                _ => [-1, i32::MIN, i32::MAX, 1000, 65536, 255, 256, 257, 4096, 3000][i - 130],
            };
            let n = r.clamp(0, 4096) as usize;
            let d = vec![1; n];
            let mut e = E::msg(1).u8(7).i32(1).u8(kind).i32(r);
            if n <= 200 {
                for _ in &d {
                    e = e.i32(1);
                }
                if kind > 2 {
                    for _ in &d {
                        e = e.i32(0);
                    }
                }
                e = e.u8(0).u8(2).u8(77);
                th.check(&e.clone().end());
                th.check(&e.string(5, "x").end());
            } else {
                th.check(&e.end());
            }
        }
    });
}

// ------------------------------------------------------------------ C10, C11: the reference graph

pub fn graphs(cx: &Cx) {
    // n top-level objects with ids 1..n in record order; each is a string, an array or object with up to two
    // slots, and each slot is null or a reference to any id, also an undefined one; any object may be the root
    for n in 1..=3usize {
        let x = n + 2; // null, 1..n, undefined
        let opts = 2 + 2 * x + 2 * x * x;
        let total = opts.pow(n as u32);
        let name: &'static str = ["", "reference graphs of 1 object", "reference graphs of 2 objects", "reference graphs of 3 objects"][n];
        cx.par(name, total, |th, mut i| {
            let mut e = E::new();
            for id in 1..=n as i32 {
                let mut o = pick(&mut i, opts);
                e = if o == 0 {
                    e.string(id, ["", "a", "b", "c"][id as usize])
                } else if o == 1 {
                    e.arr_obj(id, 0)
                } else {
                    o -= 2;
                    let obj = pick(&mut o, 2) == 1;
                    let slots: Vec<usize> = if o < x { vec![o] } else { vec![(o - x) % x, (o - x) / x] };
                    let mut e = if obj {
                        e.sys(id, "N", &["l", "r"][..slots.len()])
                    } else {
                        e.arr_obj(id, slots.len() as i32)
                    };
                    for sl in slots {
                        e = match sl {
                            0 => e.null(),
                            k => e.r(if k == n + 1 { 77 } else { k as i32 }),
                        }
                    }
                    e
                };
            }
            let b = E::msg(1).cat(&e).end();
            for root in 1..=n as i32 + 1 {
                let mut b = b.clone();
                b[1..5].copy_from_slice(&root.to_le_bytes());
                th.check(&b);
            }
        });
    }
    // four objects, arrays only
    let x = 5; // null or 1..4
    let opts: usize = if cx.thorough { 1 + x + x * x } else { 1 + x + 3 };
    cx.par("reference graphs of 4 arrays", opts.pow(4), |th, mut i| {
        let mut e = E::msg(1);
        for id in 1..=4 {
            let o = pick(&mut i, opts);
            e = if o == 0 {
                e.string(id, "s")
            } else if o <= x {
                e.arr_obj(id, 1).slot(o - 1)
            } else {
                let (p, q) = if cx.thorough { ((o - 1 - x) % x, (o - 1 - x) / x) } else { [(2, 3), (4, 1), (3, 4)][o - 1 - x] };
                e.arr_obj(id, 2).slot(p).slot(q)
            }
        }
        th.check(&e.end())
    });
}

impl E {
    fn slot(self, k: usize) -> Self {
        if k == 0 { self.null() } else { self.r(k as i32) }
    }
}

/// Objects nested in place, with references into and out of them.
/// Strings in place and references to strings, defined in place, before or behind, in every holder of several.
pub fn string_references(cx: &Cx) {
    let mut lens = if cx.thorough { ladder(1100, 1 << 21) } else { ladder(70, 1 << 17) };
    lens.extend([1_000_000, 1_048_575, 1_048_576, 1_048_577]);
    cx.par("references to strings of every length", lens.len() * 7 * 4, |th, mut k| {
        let holder = pick(&mut k, 7);
        let place = pick(&mut k, 4);
        let n = lens[lens.len() - 1 - k];
        if n > 200_000 && holder > 2 {
            return;
        }
        let text: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
        let e = E::msg(1);
        let e = if place == 1 { e.string(5, &text) } else { e };
        let names = &["a", "b", "c", "d"][..];
        let e = match holder {
            0 => e.arr_str(1, 4),
            1 => e.arr_obj(1, 4),
            2 => e.bin_arr(1, 0, &[4], &[], &t_str()),
            3 => e.sys(1, "A", names),
            4 => e.syst(1, "A", names, &vec![t_str(); 4]),
            5 => e.bin_arr(1, 2, &[2, 2], &[], &t_obj()),
            _ => E::msg(1).call(0x14, "M", "T").arr_obj(1, 4),
        };
        let e = match place {
            2 => e.string(5, &text).r(5).r(5).null(),
            3 => e.r(5).r(5).string(5, &text).r(5),
            _ => e.r(5).r(5).null().r(5),
        };
        let e = if place == 0 || place == 1 && holder == 6 { e.string(5, &text) } else { e };
        th.check(&e.end());
    });
    // each item: null, a string in place, or a reference to one of the four strings (two of them in place)
    let items = if cx.thorough { 5 } else { 4 };
    let mut perms: Vec<[i32; 4]> = vec![];
    for a in 2..6 {
        for b in 2..6 {
            for c in 2..6 {
                if a != b && a != c && b != c {
                    perms.push([a, b, c, 14 - a - b - c])
                }
            }
        }
    }
    let texts = ["in place", "second", "top", "other"];
    cx.par("strings in place and references to strings", 7usize.pow(items) * 24 * 7 * 3, |th, mut k| {
        let what: Vec<usize> = (0..items).map(|_| pick(&mut k, 7)).collect();
        let id = perms[pick(&mut k, 24)];
        let holder = pick(&mut k, 7);
        let n = items as i32;
        let names = &["a", "b", "c", "d", "e"][..items as usize];
        let e = E::msg(1);
        let e = if k == 1 { e.string(id[2], texts[2]).string(id[3], texts[3]) } else { e };
        let e = if k == 2 { e.string(id[3], texts[3]) } else { e };
        let mut e = match holder {
            0 => e.arr_str(1, n),
            1 => e.arr_obj(1, n),
            2 => e.bin_arr(1, 0, &[n], &[], &t_str()),
            3 => e.sys(1, "A", names),
            4 => e.syst(1, "A", names, &vec![t_str(); items as usize]),
            5 => e.bin_arr(1, 2, &[1, n], &[], &t_obj()),
            _ => E::msg(1).call(0x14, "M", "T").arr_obj(1, n),
        };
        let mut used = 0;
        for w in &what {
            e = match w {
                0 => e.null(),
                1 if used < 2 => {
                    used += 1;
                    e.string(id[used - 1], texts[used - 1])
                }
                1 => return,
                w => e.r(id.get(w - 2).copied().unwrap_or(6)),
            }
        }
        let e = if k == 0 || holder == 6 { e.string(id[2], texts[2]).string(id[3], texts[3]) } else { e };
        let e = if k == 2 { e.string(id[2], texts[2]) } else { e };
        if holder == 6 && k > 0 {
            return;
        }
        th.check(&e.end());
    });
}

/// Definitions of classes that agree in all but some aspects, and re-uses of each.
pub fn similar_classes(cx: &Cx) {
    let names: [&[&str]; 5] = [&["x"], &["y"], &["x", "y"], &["y", "x"], &[]];
    let mut defs = vec![];
    for lib in [0, 1, 2] {
        for class in ["A", "B"] {
            for m in names {
                defs.push((lib, class, m, None));
                for t in [t_prim(8), t_str(), t_obj()] {
                    defs.push((lib, class, m, Some(t)));
                }
            }
        }
    }
    let n = defs.len();
    cx.par("pairs of similar classes, re-used", n * n * 4, |th, mut k| {
        let order = pick(&mut k, 4);
        let d = [&defs[pick(&mut k, n)], &defs[k]];
        let fill = |e: E, d: &(i32, &str, &[&str], Option<(u8, E)>), v: i32| {
            d.2.iter().enumerate().fold(e, |e, (j, _)| match &d.3 {
                Some((0, _)) => e.i32(v + j as i32),
                Some((1, _)) => e.string(500 + v + j as i32, "s"),
                _ => e.int(v + j as i32),
            })
        };
        let def = |e: E, d: &(i32, &str, &[&str], Option<(u8, E)>), id: i32| {
            let types = d.3.as_ref().map(|t| vec![t.clone(); d.2.len()]);
            let e = match (d.0, types) {
                (0, None) => e.sys(id, d.1, d.2),
                (0, Some(t)) => e.syst(id, d.1, d.2, &t),
                (l, None) => e.cls(id, d.1, d.2, l),
                (l, Some(t)) => e.clst(id, d.1, d.2, &t, l),
            };
            fill(e, d, id * 10)
        };
        let ids = if order % 2 == 0 { [5, 6] } else { [6, 5] };
        let e = E::msg(1).lib(1, "L").arr_obj(1, 6).lib(2, "M");
        let e = def(def(e, d[0], ids[0]), d[1], ids[1]);
        let uses = if order < 2 { [0, 1, 0, 1] } else { [1, 0, 1, 0] };
        let e = uses.iter().enumerate().fold(e, |e, (j, u)| fill(e.byid(10 + j as i32, ids[*u]), d[*u], 100 + 10 * j as i32));
        th.check(&e.end());
    });
}

pub fn graph_positions(cx: &Cx) {
    // reference holders
    type Holder = (&'static str, fn(E, i32, i32) -> E);
    let holders: Vec<Holder> = vec![
        ("array", |e, id, r| e.arr_obj(id, 1).r(r)),
        ("string array", |e, id, r| e.arr_str(id, 1).r(r)),
        ("member", |e, id, r| e.sys(id, "A", &["m"]).r(r)),
        ("typed string member", |e, id, r| e.syst(id, "A", &["m"], &[t_str()]).r(r)),
        ("typed object member", |e, id, r| e.syst(id, "A", &["m"], &[t_obj()]).r(r)),
        ("typed class member", |e, id, r| e.syst(id, "A", &["m"], &[t_sys("T")]).r(r)),
        ("typed library class member", |e, id, r| e.lib(id + 1000, "L").syst(id, "A", &["m"], &[t_cls("T", id + 1000)]).r(r)),
        ("object array member", |e, id, r| e.syst(id, "A", &["m"], &[t_objarr()]).r(r)),
        ("string array member", |e, id, r| e.syst(id, "A", &["m"], &[t_strarr()]).r(r)),
        ("primitive array member", |e, id, r| e.syst(id, "A", &["m"], &[t_primarr(2)]).r(r)),
        ("jagged", |e, id, r| e.bin_arr(id, 1, &[1], &[], &t_objarr()).r(r)),
        ("rect strings", |e, id, r| e.bin_arr(id, 2, &[1, 1], &[], &t_str()).r(r)),
        ("nested object", |e, id, r| e.arr_obj(id, 1).sys(id + 500, "I", &["m"]).r(r)),
        ("after nulls", |e, id, r| e.arr_obj(id, 4).nulls(2).r(r).null()),
        ("by id", |e, id, r| e.arr_obj(id, 2).sys(id + 500, "I", &["m"]).null().byid(id + 600, id + 500).r(r)),
    ];
    // referenced objects
    type Target = (&'static str, fn(E, i32) -> E);
    let targets: Vec<Target> = vec![
        ("string", |e, id| e.string(id, "target")),
        ("empty string", |e, id| e.string(id, "")),
        ("string in array", |e, id| e.arr_obj(id + 300, 2).int(1).string(id, "inline")),
        ("string in string array", |e, id| e.arr_str(id + 300, 2).string(id, "inline").null()),
        ("string in member", |e, id| e.sys(id + 300, "S", &["p", "q"]).string(id, "mem").null()),
        ("string in typed member", |e, id| e.syst(id + 300, "S", &["p"], &[t_str()]).string(id, "tm")),
        ("object", |e, id| e.sys(id, "T", &["v"]).int(1)),
        ("typed object", |e, id| e.syst(id, "T", &["v"], &[t_prim(8)]).i32(1)),
        ("library object", |e, id| e.lib(id + 2000, "L").cls(id, "T", &[], id + 2000)),
        ("object array", |e, id| e.arr_obj(id, 2).null().int(3)),
        ("string array", |e, id| e.arr_str(id, 1).null()),
        ("byte array", |e, id| e.arr_prim(id, 2, 2).u8(12).u8(11)),
        ("rect", |e, id| e.bin_arr(id, 2, &[1, 2], &[], &t_prim(2)).u8(1).u8(2)),
        ("object in array", |e, id| e.arr_obj(id + 300, 1).sys(id, "T", &[])),
    ];
    let n = holders.len();
    cx.par("reference holders x referenced objects x order x distance", n * targets.len() * 24, |th, mut i| {
        let h = &holders[pick(&mut i, n)];
        let t = &targets[pick(&mut i, targets.len())];
        let order = pick(&mut i, 4);
        let (hid, tid) = [(1, 2), (2, 1), (5, 300), (1, 65537), (70, 6), (257, 1)][i];
        let e = E::msg(hid);
        let fill = |e: E| e.string(4000, "filler").arr_obj(4001, 1).sys(4002, "F", &["f"]).null();
        let e = match order {
            0 => (t.1)((h.1)(e, hid, tid), tid),
            1 => (h.1)((t.1)(e, tid), hid, tid),
            2 => (t.1)(fill((h.1)(e, hid, tid)), tid),
            _ => fill((h.1)(fill((t.1)(e, tid)).lib(9000, "x").sys(9001, "F", &[]), hid, tid).lib(9002, "y").sys(9003, "G", &[])),
        };
        if order == 3 {
            // ids of the fillers would be defined twice
            return;
        }
        th.check(&e.end());
    });
    // repeated references
    let l = if cx.thorough { ladder(400, 70_000) } else { ladder(260, 4097) };
    cx.par("n references to one string, before and behind it", l.len() * 6, |th, mut i| {
        let v = pick(&mut i, 6);
        let n = l[l.len() - 1 - i] as i32;
        let refs = |mut e: E| {
            for _ in 0..n {
                e = e.r(2);
            }
            e
        };
        let b = match v {
            0 => refs(E::msg(1).arr_obj(1, n)).string(2, "str").end(),
            1 => refs(E::msg(1).string(2, "str").arr_obj(1, n)).end(),
            2 => refs(E::msg(1).arr_str(1, n + 1).string(2, "str")).end(),
            3 => refs(E::msg(1).arr_str(1, n)).arr_obj(3, 1).string(2, "str").end(),
            4 => refs(E::msg(1).bin_arr(1, 2, &[n, 1], &[], &t_str())).string(2, "").end(),
            _ => refs(E::msg(1).call(0x14, "M", "T").arr_obj(1, n)).string(2, "str").end(),
        };
        th.check(&b);
    });
}

/// Objects shared without a cycle, and cycles of all lengths, also outside of what the root reaches.
pub fn graph_chains(cx: &Cx) {
    let max = if cx.thorough { 100 } else { 60 };
    cx.par("reference chains and cycles", max * 12, |th, mut i| {
        let v = pick(&mut i, 12);
        let n = i as i32 + 1;
        let close = match v % 3 {
            0 => None,        // ends in a string
            1 => Some(1),     // back to the root
            _ => Some(n / 2 + 1), // back into the middle
        };
        let rev = v / 3 % 2 == 1;
        let objs = v / 6 == 1;
        let mut recs = vec![];
        for k in 1..=n {
            let next = if k == n { close.unwrap_or(n + 1) } else { k + 1 };
            recs.push(if objs { E::new().sys(k, "N", &["next"]).r(next) } else { E::new().arr_obj(k, 1).r(next) });
        }
        if close.is_none() {
            recs.push(E::new().string(n + 1, "end"));
        }
        if rev {
            recs.reverse();
        }
        for root in [1, n, n + 1, 1000] {
            let mut e = E::msg(root);
            for r in &recs {
                e = e.cat(r);
            }
            if root == 1000 {
                // the chain is not part of the result
                e = e.string(1000, "elsewhere");
            }
            th.check(&e.end());
        }
    });
    // ids which an implementation may confuse
    let mut pairs = vec![];
    for base in [1i32, 2, 5, 0x5555_5555] {
        for bit in 0..31 {
            pairs.push((base, base ^ (1 << bit)));
        }
    }
    for a in [255, 256, 257, 65535, 65536, 65537, i32::MAX, i32::MAX - 1] {
        for b in [1, 2, 254, 65534, 131_072] {
            pairs.push((a, b))
        }
    }
    pairs.retain(|(a, b)| *a > 0 && *b > 0 && a != b && *a != 1000 && *b != 1000);
    cx.par("object ids which differ in one bit", pairs.len() * 6, |th, mut i| {
        let v = pick(&mut i, 6);
        let (a, b) = pairs[i];
        let m = match v {
            0 => E::msg(a).string(a, "A").string(b, "B"),
            1 => E::msg(b).string(a, "A").string(b, "B"),
            2 => E::msg(1000).arr_obj(1000, 2).r(b).r(a).string(a, "A").string(b, "B"),
            3 => E::msg(1000).string(b, "B").arr_str(a, 1).null().arr_obj(1000, 2).r(a).r(b),
            4 => E::msg(1000).arr_obj(1000, 1).r(b).string(a, "A"),
            _ => E::msg(a).string(b, "B"),
        };
        th.check(&m.end());
    });
}

pub fn roots(cx: &Cx) {
    type Rec = fn(E, i32) -> E;
    let recs: Vec<Rec> = vec![
        |e, id| e.string(id, &format!("s{id}")),
        |e, id| e.arr_obj(id, 1).int(id),
        |e, id| e.arr_str(id, 1).null(),
        |e, id| e.arr_prim(id, 1, 8).i32(id),
        |e, id| e.bin_arr(id, 2, &[1, 1], &[], &t_prim(8)).i32(id),
        |e, id| e.sys(id, "S", &["m"]).int(id),
        |e, id| e.syst(id, "T", &["m"], &[t_prim(8)]).i32(id),
        |e, id| e.lib(id + 5000, "L").clst(id, "C", &["m"], &[t_prim(8)], id + 5000).i32(id),
        |e, id| e.arr_obj(id, 1).string(id + 7000, "inline"),
        |e, id| e.lib(id + 5000, "L").arr_obj(id, 0),
    ];
    let n = recs.len();
    let len = if cx.thorough { 5 } else { 4 };
    let ids = [[1, 2, 3, 4, 5], [9, 3, 7, 1, 5], [2, 258, 65538, 3, 259]];
    cx.par("root at every position among records of all kinds", n.pow(len as u32) * 3, |th, mut i| {
        let ids = ids[pick(&mut i, 3)];
        let mut e = E::msg(1);
        for id in &ids[..len] {
            e = recs[pick(&mut i, n)](e, *id);
        }
        let b = e.end();
        for root in ids[..len].iter().chain(&[6, 0x0100_0001]) {
            let mut b = b.clone();
            b[1..5].copy_from_slice(&root.to_le_bytes());
            th.check(&b);
        }
    });
    let l = if cx.thorough { ladder(300, 70_000) } else { ladder(260, 2100) };
    cx.par("root at every position among many", l.len(), |th, i| {
        let n = l[l.len() - 1 - i] as i32;
        for root in [1, 2, n / 2 + 1, n, n + 1] {
            let mut e = E::msg(root);
            for k in 1..=n {
                e = e.string(k, if k % 2 == 0 { "even" } else { "odd" });
            }
            th.check(&e.end());
        }
    });
    // every value of the root id's bytes
    cx.par("root ids", 31 * 31 * 4, |th, mut i| {
        let (a, b) = (pick(&mut i, 31), pick(&mut i, 31));
        let (x, y) = (1i32 << a, if a == b { 3 } else { 1 << b });
        let root = [x, y, x | y, x ^ 1][i];
        if root > 0 && x != y {
            th.check(&E::msg(root).arr_obj(x, 1).int(1).string(y, "y").end());
        }
    });
}

// ------------------------------------------------------------------ C12: identifiers

/// All records that define an object, at top level and in place.
type Def = (&'static str, bool, fn(E, i32) -> E);
fn defs() -> Vec<Def> {
    vec![
        ("string", false, |e, id| e.string(id, "s")),
        ("object array", false, |e, id| e.arr_obj(id, 1).null()),
        ("string array", false, |e, id| e.arr_str(id, 0)),
        ("primitive array", false, |e, id| e.arr_prim(id, 1, 2).u8(1)),
        ("general array", false, |e, id| e.bin_arr(id, 2, &[1, 1], &[], &t_prim(2)).u8(1)),
        ("sys", true, |e, id| e.sys(id, "A", &["m"]).null()),
        ("syst", true, |e, id| e.syst(id, "A", &["m"], &[t_prim(2)]).u8(3)),
        ("cls", true, |e, id| e.cls(id, "A", &["m"], 1).null()),
        ("clst", true, |e, id| e.clst(id, "A", &[], &[], 1)),
        ("by id", true, |e, id| e.byid(id, 900).int(1)),
        ("inline string", false, |e, id| e.arr_obj(next(), 1).string(id, "i")),
        ("inline string in string array", false, |e, id| e.arr_str(next(), 1).string(id, "i")),
        ("inline string in member", false, |e, id| e.syst(next(), "B", &["m"], &[t_str()]).string(id, "i")),
        ("inline object", true, |e, id| e.arr_obj(next(), 1).sys(id, "A", &[])),
        ("inline typed object", true, |e, id| e.syst(next(), "B", &["m"], &[t_sys("A")]).sys(id, "A", &[])),
        ("inline by id", true, |e, id| e.arr_obj(next(), 1).byid(id, 900).int(1)),
        ("inline in inline", true, |e, id| e.sys(next(), "B", &["m"]).sys(next(), "C", &["n"]).sys(id, "A", &[])),
    ]
}
thread_local!(static NEXT: std::cell::Cell<i32> = const { std::cell::Cell::new(0) });
fn next() -> i32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        100_000 + n.get()
    })
}

pub fn duplicate_ids(cx: &Cx) {
    let d = defs();
    let n = d.len();
    let ids = [(2, 2), (2, 3), (1000, 1000), (65538, 2), (258, 2), (0x0100_0002, 2), (2, -2), (-2, -2), (5, 5)];
    cx.par("all pairs of defining records x ids x distance", n * n * ids.len() * 4, |th, mut i| {
        NEXT.with(|n| n.set(0));
        let (a, b) = (&d[pick(&mut i, n)], &d[pick(&mut i, n)]);
        let (x, y) = ids[pick(&mut i, ids.len())];
        let mut e = E::msg(1).lib(1, "L").cls(900, "K", &["k"], 1).null().string(1, "root");
        e = a.2(e, x);
        match i {
            0 => (),
            1 => e = e.string(next(), "between").arr_obj(next(), 1).sys(next(), "X", &[]),
            2 => {
                for _ in 0..40 {
                    e = e.arr_obj(next(), 0)
                }
            }
            _ => {
                // the first object referenced, possibly resolved, before the id comes again
                e = e.arr_obj(next(), 1).r(x.max(1)).lib(7, "M").sys(next(), "A", &[]);
            }
        }
        th.check(&b.2(e, y).end());
    });
    // the id of the root, the call array or an enclosing object, used again inside or behind
    cx.par("id of an enclosing object or of the call array", n * 16, |th, mut i| {
        NEXT.with(|n| n.set(0));
        let d = &d[pick(&mut i, n)];
        let pre = |root: i32| E::msg(root).lib(1, "L").cls(900, "K", &["k"], 1).null();
        let inner = d.2(E::new(), 3);
        // (only in-place forms can be nested)
        let b = match i {
            0 => pre(3).arr_obj(3, 1).sys(3, "A", &[]),
            1 => pre(3).arr_obj(3, 1).string(3, "A"),
            2 => pre(3).arr_str(3, 1).string(3, "A"),
            3 => pre(3).sys(3, "A", &["m"]).sys(3, "A", &[]),
            4 => pre(3).sys(3, "A", &["m"]).byid(3, 900).int(1),
            5 => pre(3).byid(3, 900).byid(3, 900).int(1),
            6 => pre(3).bin_arr(3, 2, &[1, 1], &[], &t_obj()).string(3, "x"),
            7 => pre(3).call(0x14, "M", "T").arr_obj(3, 0).cat(&inner),
            8 => pre(3).cat(&inner).call(0x14, "M", "T").arr_obj(3, 0),
            9 => pre(3).call(0x14, "M", "T").arr_obj(3, 1).string(3, "x"),
            10 => pre(3).ret(0x414).arr_obj(3, 1).sys(3, "A", &[]),
            11 => pre(3).ret(0x414).arr_obj(3, 0).cat(&inner),
            12 => pre(3).cat(&inner).arr_obj(4, 1).r(3),
            13 => pre(3).cat(&inner).arr_obj(4, 2).r(3).string(3, "late"),
            14 => pre(4).arr_obj(4, 1).r(3).cat(&inner).cat(&d.2(E::new(), 3)),
            _ => pre(3).arr_obj(3, 2).sys(5, "A", &["x"]).sys(6, "B", &["y"]).string(5, "dup").null(),
        };
        th.check(&b.end());
    });
    let l = if cx.thorough { ladder(300, 20_000) } else { ladder(140, 2050) };
    cx.par("an id used again after n others", l.len() * 3, |th, mut i| {
        let v = pick(&mut i, 3);
        let n = l[l.len() - 1 - i] as i32;
        let mut e = E::msg(1).string(1, "r");
        for k in 0..n {
            e = e.string(k + 2, "x");
        }
        let again = [n + 2, 1, n / 2 + 1][v];
        th.check(&e.arr_obj(again.max(1), 0).end());
    });
}

pub fn library_ids(cx: &Cx) {
    // uses of a library id, in every kind of record
    type Use = (&'static str, fn(E, i32) -> E);
    let uses: Vec<Use> = vec![
        ("class", |e, l| e.cls(1, "A", &["m"], l).null()),
        ("class, no members", |e, l| e.cls(1, "A", &[], l)),
        ("typed class", |e, l| e.clst(1, "A", &["m"], &[t_prim(2)], l).u8(1)),
        ("typed class, no members", |e, l| e.clst(1, "A", &[], &[], l)),
        ("slot null", |e, l| e.syst(1, "A", &["m"], &[t_cls("B", l)]).null()),
        ("slot ref", |e, l| e.syst(1, "A", &["m"], &[t_cls("B", l)]).r(70).arr_obj(71, 0).sys(70, "B", &[])),
        ("second slot", |e, l| e.syst(1, "A", &["k", "m"], &[t_prim(2), t_cls("B", l)]).u8(1).null()),
        ("array of class", |e, l| e.bin_arr(1, 0, &[1], &[], &t_cls("B", l)).null()),
        ("array of class, empty", |e, l| e.bin_arr(1, 0, &[0], &[], &t_cls("B", l))),
        ("array of class, nulls", |e, l| e.bin_arr(1, 2, &[2, 2], &[], &t_cls("B", l)).nulls8(4)),
        ("rect of class, empty", |e, l| e.bin_arr(1, 2, &[2, 0], &[], &t_cls("B", l))),
        ("inline class", |e, l| e.arr_obj(1, 1).cls(5, "A", &[], l)),
        ("inline typed class", |e, l| e.sys(1, "A", &["m"]).clst(5, "A", &["x"], &[t_prim(2)], l).u8(1)),
        ("re-used class", |e, l| e.cls(1, "A", &[], l).byid(2, 1)),
        ("call argument", |e, l| e.call(0x14, "M", "T").arr_obj(1, 1).cls(2, "A", &[], l)),
        ("unused object", |e, l| e.string(1, "r").cls(2, "A", &[], l)),
        ("unused empty array", |e, l| e.string(1, "r").bin_arr(2, 0, &[0], &[], &t_cls("B", l))),
    ];
    let ids = [1, 2, 3, 0, -1, 257, 65537, 0x0100_0001, i32::MAX, i32::MIN];
    let n = uses.len();
    cx.par("library id uses x defined ids x used ids x placement", n * 100 * 5, |th, mut i| {
        let u = &uses[pick(&mut i, n)];
        let def = ids[pick(&mut i, 10)];
        let used = ids[pick(&mut i, 10)];
        let b = match i {
            0 => u.1(E::msg(1).lib(def, "L"), used),
            1 => u.1(E::msg(1), used),
            2 => u.1(E::msg(1).lib(def, "L").arr_obj(60, 0).lib(2, "M"), used),
            3 => u.1(E::msg(1).lib(1, "M").arr_obj(60, 0).lib(def, "L"), used),
            // defined only afterwards
            _ => u.1(E::msg(1), used).lib(def, "L").sys(80, "Z", &[]),
        };
        th.check(&b.end());
    });
    let m = if cx.thorough { 600 } else { 140 };
    cx.par("n libraries, one of them twice", m * 3, |th, mut i| {
        let v = pick(&mut i, 3);
        let n = i as i32 + 1;
        let mut e = E::msg(1).arr_obj(1, n);
        for k in 1..=n {
            e = e.lib(k, "L").cls(k + 1, "A", &[], k);
        }
        let again = [1, n, n / 2 + 1][v];
        th.check(&e.clone().lib(again, "L").sys(9999, "Z", &[]).end());
        th.check(&e.clone().lib(again, "").sys(9999, "Z", &[]).end());
        th.check(&e.clone().lib(n + 1, "L").cls(9999, "Z", &[], again).end());
        th.check(&e.cls(9999, "Z", &[], n + 1).end());
    });
    // repeated library records in all positions
    cx.par("library records repeated, with equal and different names", 4 * 4 * 6, |th, mut i| {
        let a = ["L", "M", "", "L\u{c}"][pick(&mut i, 4)];
        let b = ["L", "M", "", "L\u{c}"][pick(&mut i, 4)];
        let e = E::msg(1);
        let b = match i {
            0 => e.lib(1, a).arr_obj(1, 0).lib(1, b).sys(2, "A", &[]),
            1 => e.lib(1, a).arr_obj(1, 1).lib(1, b).null(),
            2 => e.lib(1, a).cls(1, "A", &["m"], 1).lib(1, b).sys(3, "B", &[]),
            3 => e.arr_obj(1, 2).lib(1, a).null().lib(1, b).null(),
            4 => e.lib(1, a).call(0x14, "M", "T").lib(1, b).arr_obj(1, 0),
            _ => e.lib(1, a).lib(1, b).sys(1, "A", &[]),
        };
        th.check(&b.end());
    });
}

/// Zero, negative, undefined and unusual ids in every place that carries an id.
pub fn odd_ids(cx: &Cx) {
    let ids = [0, -1, -2, 1, 2, 3, 4, 99, 256, 65537, i32::MAX, i32::MIN, 0x0100_0000, 0x8000];
    type F = fn(E, i32) -> E;
    let places: Vec<F> = vec![
        |e, x| e.string(x, "s"),
        |e, x| e.arr_obj(x, 0),
        |e, x| e.arr_str(x, 1).null(),
        |e, x| e.arr_prim(x, 1, 2).u8(1),
        |e, x| e.bin_arr(x, 0, &[1], &[], &t_str()).null(),
        |e, x| e.bin_arr(x, 2, &[1, 1], &[], &t_obj()).null(),
        |e, x| e.sys(x, "A", &[]),
        |e, x| e.syst(x, "A", &["m"], &[t_prim(2)]).u8(1),
        |e, x| e.cls(x, "A", &[], 1),
        |e, x| e.clst(x, "A", &["m"], &[t_prim(2)], 1).u8(1),
        |e, x| e.byid(x, 2),
        |e, x| e.byid(50, x),
        |e, x| e.arr_obj(50, 1).string(x, "i"),
        |e, x| e.arr_str(50, 1).string(x, "i"),
        |e, x| e.arr_obj(50, 1).sys(x, "A", &[]),
        |e, x| e.arr_obj(50, 1).cls(x, "A", &[], 1),
        |e, x| e.arr_obj(50, 1).byid(x, 2),
        |e, x| e.arr_obj(50, 1).byid(60, x),
        |e, x| e.arr_obj(50, 1).r(x),
        |e, x| e.arr_str(50, 1).r(x),
        |e, x| e.sys(50, "A", &["m"]).r(x),
        |e, x| e.syst(50, "A", &["m"], &[t_str()]).r(x),
        |e, x| e.syst(50, "A", &["m"], &[t_objarr()]).r(x),
        |e, x| e.syst(50, "A", &["m"], &[t_cls("A", 1)]).r(x),
        |e, x| e.bin_arr(50, 1, &[1], &[], &t_primarr(2)).r(x),
        |e, x| e.lib(x, "X").arr_obj(50, 0),
        |e, x| e.arr_obj(50, 1).lib(x, "X").null(),
        |e, x| e.syst(50, "A", &["m"], &[t_obj()]).lib(x, "X").null(),
        |e, x| e.cls(50, "A", &[], x),
        |e, x| e.clst(50, "A", &[], &[], x),
        |e, x| e.arr_obj(50, 1).cls(51, "A", &[], x),
        |e, x| e.syst(50, "A", &["m"], &[t_cls("A", x)]).null(),
        |e, x| e.bin_arr(50, 0, &[1], &[], &t_cls("A", x)).null(),
        |e, x| e.bin_arr(50, 0, &[0], &[], &t_cls("A", x)),
        |e, x| e.call(0x14, "M", "T").arr_obj(x, 0),
        |e, x| e.ret(0x414).arr_obj(x, 1).null(),
        |e, x| e.call(0x11, "M", "T").arr_obj(x, 0),
        |e, x| e.call(0x14, "M", "T").arr_obj(3, 1).r(x),
        |e, x| e.call(0x14, "M", "T").arr_obj(3, 1).string(x, "i"),
    ];
    cx.par("ids x every place that carries one x root", places.len() * ids.len() * 3, |th, mut i| {
        let p = places[pick(&mut i, places.len())];
        let x = ids[pick(&mut i, ids.len())];
        let root = [3, 2, 50][i];
        let e = E::msg(root).lib(1, "L").sys(2, "A", &[]);
        th.check(&p(e.clone(), x).end());
        th.check(&p(e.clone().string(3, "r"), x).end());
        th.check(&p(e.string(3, "r").lib(2, "L2").arr_obj(4, 1).null(), x).arr_obj(77, 1).null().end());
    });
}

// ------------------------------------------------------------------ C13: library records

/// Library records at every place where one is allowed.
pub fn library_places(cx: &Cx) {
    // a message as a list of pieces; a library may stand in front of each
    let mut msgs: Vec<Vec<E>> = vec![];
    let e = E::new;
    msgs.push(vec![E::msg(1), e().sys(1, "A", &["x", "y"]), e().int(1), e().null(), e().sys(2, "B", &[])]);
    msgs.push(vec![E::msg(1), e().arr_obj(1, 3), e().int(7), e().string(3, "s"), e().r(4), e().arr_prim(4, 1, 2).u8(12)]);
    msgs.push(vec![E::msg(1), e().syst(1, "A", &["a", "b", "c"], &[t_obj(), t_str(), t_sys("S")]), e().int(1), e().string(5, "x"), e().sys(6, "S", &["m"]), e().null(), e().arr_str(7, 0)]);
    msgs.push(vec![E::msg(1), e().bin_arr(1, 2, &[2, 1], &[], &t_obj()), e().int(1), e().nulls8(1), e().bin_arr(2, 0, &[1], &[], &t_sys("S")), e().null()]);
    msgs.push(vec![E::msg(1), e().sys(3, "D", &["m"]), e().int(5), e().byid(1, 3), e().byid(4, 3), e().null()]);
    msgs.push(vec![E::msg(1), e().call(0x14, "M", "T"), e().arr_obj(1, 2), e().int(1), e().r(9), e().arr_obj(9, 1), e().null()]);
    msgs.push(vec![E::msg(1), e().arr_obj(8, 0), e().ret(0x1011), e().arr_obj(1, 1), e().sys(2, "R", &["v"]), e().int(3), e().sys(5, "Z", &[])]);
    msgs.push(vec![E::msg(0), e().call(0x12, "M", "T").i32(1).u8(2).u8(12), e().sys(3, "D", &[])]);
    msgs.push(vec![E::msg(1), e().syst(1, "A", &["o", "p", "q"], &[t_objarr(), t_primarr(8), t_obj()]), e().null(), e().r(2), e().nulls(1), e().arr_prim(2, 0, 8)]);
    msgs.push(vec![E::msg(1), e().bin_arr(1, 1, &[3], &[], &t_sys("S")), e().sys(2, "S", &["k"]), e().int(1), e().byid(3, 2), e().int(2), e().nulls8(1)]);
    let jobs: Vec<(usize, usize)> = msgs.iter().enumerate().flat_map(|(i, m)| (0..1usize << (m.len() - 1)).map(move |k| (i, k))).collect();
    let names = ["L", "", "\u{c}\u{1}"];
    cx.par("library records in front of every subset of records and members", jobs.len() * 3, |th, mut i| {
        let name = names[pick(&mut i, 3)];
        let (m, mask) = jobs[i];
        let m = &msgs[m];
        let mut b = m[0].clone();
        for (k, p) in m[1..].iter().enumerate() {
            if mask >> k & 1 == 1 {
                b = b.lib(k as i32 + 1, name);
            }
            b = b.cat(p);
        }
        th.check(&b.end());
    });
    // bindings: which library a class gets, with libraries appearing over time
    cx.par("classes bound to any library so far", 5usize.pow(4) * 3, |th, mut i| {
        let uses: Vec<usize> = (0..4).map(|_| pick(&mut i, 5)).collect();
        let ids = [[1, 2, 3, 4], [7, 1, 65537, 3], [4, 3, 2, 1]][i];
        let mut e = E::msg(1).arr_obj(1, 4);
        for k in 0..4 {
            e = e.lib(ids[k], ["Alpha", "Beta", "", "Delta"][k]);
            let id = 10 + k as i32;
            e = match uses[k] {
                4 => e.sys(id, "C", &["m"]).int(1),
                u if k % 2 == 0 => e.cls(id, "C", &["m"], ids[u]).int(2),
                u => e.clst(id, "C", &["m"], &[t_cls("C", ids[u])], ids[u]).null(),
            };
        }
        th.check(&e.end());
    });
    let l = if cx.thorough { ladder(300, 20_000) } else { ladder(140, 1100) };
    cx.par("n libraries with classes bound in another order", l.len() * 2, |th, mut i| {
        let rev = pick(&mut i, 2) == 1;
        let n = l[l.len() - 1 - i] as i32;
        let mut e = E::msg(1).arr_obj(1, 2 * n);
        for k in 1..=n {
            e = e.lib(k, &format!("Lib{k}")).null();
        }
        for k in 1..=n {
            let u = if rev { n + 1 - k } else { k };
            e = e.cls(k + 1, "C", &[], u);
        }
        th.check(&e.end());
    });
}

/// Raw primitive data which looks like a library record.
pub fn library_lookalikes(cx: &Cx) {
    let mut bodies: Vec<Vec<u8>> = vec![];
    for id in [1, 2, 7, 0, -1] {
        for name in ["", "X", "ab", "abcdefgh"] {
            bodies.push(E::new().lib(id, name).0);
        }
    }
    // every first byte as well
    for b in 0..=255u8 {
        bodies.push(vec![b, 1, 0, 0, 0, 0, 0, 0]);
        bodies.push(vec![b, 2, 0, 0, 0, 1, b'X', 12]);
    }
    cx.par("raw data that looks like records x primitive types x positions", bodies.len() * PRIMS.len() * 7, |th, mut i| {
        let pos = pick(&mut i, 7);
        let t = PRIMS[pick(&mut i, PRIMS.len())];
        let raw = &bodies[i];
        let Some(w) = model::prim_size(t) else { return };
        if t == 1 {
            return;
        }
        let n = raw.len() / w + 2;
        let mut data = raw.clone();
        data.resize(n * w, 12);
        let e = E::msg(1);
        let e = match pos {
            0 => e.arr_prim(1, n as i32, t).raw(&data),
            1 => e.bin_arr(1, 0, &[n as i32], &[], &t_prim(t)).raw(&data),
            2 => e.bin_arr(1, 2, &[1, n as i32], &[], &t_prim(t)).raw(&data),
            3 => {
                let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
                let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                e.syst(1, "A", &names, &vec![t_prim(t); n]).raw(&data)
            }
            4 => {
                let names: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
                let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                e.lib(1, "L").arr_obj(1, 2).clst(5, "A", &names, &vec![t_prim(t); n], 1).raw(&data).byid(6, 5).raw(&data)
            }
            5 => {
                let mut e = e.lib(7, "L").arr_obj(1, n as i32);
                for k in 0..n {
                    e = e.typed(t, &data[k * w..(k + 1) * w]);
                }
                e
            }
            _ => {
                let mut e = e.call(0x12, "M", "T").i32(n as i32);
                for k in 0..n {
                    e = e.u8(t).raw(&data[k * w..(k + 1) * w]);
                }
                e
            }
        };
        th.check(&e.clone().end());
        th.check(&e.lib(7 + pos as i32 * 0 + 100, "Y").cls(70, "Q", &[], 107).end());
    });
    cx.par("two-byte and char data starting like a record", 256 * 256, |th, i| {
        let d = [i as u8, (i >> 8) as u8];
        let b = E::msg(1).syst(1, "A", &["a", "b"], &[t_prim(2), t_prim(10)]).raw(&d).end();
        th.check(&b);
        let b = E::msg(1).bin_arr(1, 0, &[2], &[], &t_prim(2)).raw(&d).end();
        th.check(&b);
    });
}

// ------------------------------------------------------------------ C14, C15: methods

fn arg_values() -> Vec<(E, RVal)> {
    let mut v: Vec<(E, RVal)> = PRIMS.iter().map(|t| {
        let r = raw(*t);
        let d = decode(*t, &r).unwrap();
        (E::new().u8(*t).raw(&r), d)
    }).collect();
    v.push((E::new().u8(17), RVal::Null));
    v.push((E::new().sc("arg"), s("arg")));
    v.push((E::new().sc(""), s("")));
    v
}

pub fn method_inline(cx: &Cx, is_call: bool) {
    let args = arg_values();
    let n = args.len();
    let max = if cx.thorough { 4 } else { 3 };
    let names = [("M", "T"), ("", ""), ("Größe", "Ns.Type, Asm"), ("T", "M")];
    let suite = if is_call { "calls: inline arguments x context x names" } else { "returns: inline arguments x context x return value" };
    let sizes: Vec<usize> = (0..=max).map(|m| n.pow(m)).collect();
    let total: usize = sizes.iter().sum();
    cx.par(suite, total * 2 * 4, |th, mut i| {
        let ctx = pick(&mut i, 2) == 1;
        let v = pick(&mut i, 4);
        let mut m = 0;
        while i >= sizes[m] {
            i -= sizes[m];
            m += 1;
        }
        let mut a = E::new().i32(m as i32);
        let mut want = vec![];
        for _ in 0..m {
            let (e, r) = &args[pick(&mut i, n)];
            a = a.cat(e);
            want.push(r.clone());
        }
        let cf = if ctx { 0x20 } else { 0x10 };
        let c = ctx.then(|| "call-id".to_string());
        if is_call {
            let (name, ty) = names[v];
            let mut e = E::msg(0).call(0x02 | cf, name, ty);
            if ctx {
                e = e.sc("call-id");
            }
            th.check_known(&e.cat(&a).end(), &RMsg::Call { name: name.into(), ty: ty.into(), ctx: c, args: Some(want) });
        } else {
            let (rf, re, rv): (i32, E, Option<RVal>) = match v {
                0 => (0, E::new(), None),
                1 => (0x400, E::new(), None),
                2 => (0x800, args[m * 5 % n].0.clone(), Some(args[m * 5 % n].1.clone())),
                _ => (0x800, E::new().sc("rv"), Some(s("rv"))),
            };
            let mut e = E::msg(0).ret(0x02 | cf | rf).cat(&re);
            if ctx {
                e = e.sc("call-id");
            }
            th.check_known(&e.cat(&a).end(), &RMsg::Ret { ret: rv, ctx: c, args: Some(want) });
        }
    });
    let l = if cx.thorough { ladder(600, 70_000) } else { ladder(300, 4097) };
    cx.par(if is_call { "calls: number of inline arguments" } else { "returns: number of inline arguments" }, l.len(), |th, i| {
        let n = l[l.len() - 1 - i];
        let mut e = if is_call { E::msg(0).call(0x22, "M", "T").sc("c") } else { E::msg(0).ret(0x822).u8(2).u8(7).sc("c") };
        e = e.i32(n as i32);
        let e = (0..n).fold(e, |e, k| if k % 3 == 2 { e.sc("z") } else { e.u8(8).i32(k as i32) });
        th.check(&e.end());
    });
}

pub fn method_flags_args(cx: &Cx, is_call: bool) {
    // all valid flag words (of the defined bits) x call arrays
    let words: Vec<i32> = (0..0x10000u32).filter(|f| model::flags_ok(*f) && f & 0x4000 == 0).map(|f| f as i32).collect();
    let words: Vec<i32> = if cx.thorough { words } else { words.into_iter().filter(|f| f & 0x8100 == 0 || f & 0x8100 == 0x8100).collect() };
    let arrays = call_arrays();
    let suite = if is_call { "calls: valid flags x call arrays x contents" } else { "returns: valid flags x call arrays x contents" };
    cx.par(suite, words.len() * arrays.len(), |th, mut i| {
        let (aname, arr) = &arrays[pick(&mut i, arrays.len())];
        let f = words[i];
        let mut e = E::msg(1);
        e = if is_call { e.call(f, "Method", "Type") } else { e.ret(f) };
        if !is_call && f & 0x800 != 0 {
            e = e.u8(8).i32(5);
        }
        if f & 0x20 != 0 {
            e = e.sc("ctx");
        }
        if f & 2 != 0 {
            e = e.i32(2).u8(2).u8(1).sc("x");
        }
        let _ = aname;
        th.check(&e.cat(arr).end());
    });
}

fn call_arrays() -> Vec<(&'static str, E)> {
    let e = E::new;
    vec![
        ("none", e()),
        ("empty", e().arr_obj(1, 0)),
        ("one int", e().arr_obj(1, 1).int(5)),
        ("one null", e().arr_obj(1, 1).null()),
        ("two", e().arr_obj(1, 2).string(9, "a").int(6)),
        ("nulls", e().arr_obj(1, 3).nulls8(3)),
        ("array first", e().arr_obj(1, 1).r(2).arr_obj(2, 2).int(1).string(3, "q")),
        ("array first, value second", e().arr_obj(1, 2).r(2).string(4, "rv").arr_prim(2, 2, 2).u8(1).u8(12)),
        ("array first, null second, more", e().arr_obj(1, 4).r(2).null().int(1).int(2).arr_obj(2, 0)),
        ("rect first", e().arr_obj(1, 2).r(2).int(8).bin_arr(2, 2, &[1, 2], &[], &t_prim(2)).u8(1).u8(2)),
        ("string first, array second", e().arr_obj(1, 2).string(5, "s").r(2).arr_str(2, 1).null()),
        ("object first", e().arr_obj(1, 2).sys(5, "O", &["m"]).int(1).r(2).arr_obj(2, 1).null()),
        ("list object first", e().arr_obj(1, 1).r(5).sys(5, "O", &["m"]).int(1)),
        ("other id", e().arr_obj(2, 1).int(5)),
        ("other id, root behind", e().arr_obj(2, 1).int(5).arr_obj(1, 1).int(6)),
        ("string array", e().arr_str(1, 1).null()),
        ("primitive array", e().arr_prim(1, 1, 2).u8(1)),
        ("general array", e().bin_arr(1, 0, &[1], &[], &t_obj()).int(1)),
        ("library in front", e().lib(1, "L").arr_obj(1, 1).cls(2, "A", &[], 1)),
        ("object in front", e().sys(7, "X", &[]).arr_obj(1, 1).int(1)),
        ("undefined reference", e().arr_obj(1, 1).r(99)),
        ("reference to itself", e().arr_obj(1, 1).r(1)),
        ("cycle", e().arr_obj(1, 1).r(2).arr_obj(2, 1).r(2)),
        ("more behind", e().arr_obj(1, 2).r(3).int(4).string(3, "three").sys(8, "B", &["m"]).null()),
        ("first by reference to reference", e().arr_obj(1, 1).r(2).arr_obj(2, 1).r(3).arr_obj(3, 1).int(3)),
        ("too short", e().arr_obj(1, 2).int(1)),
        ("too long", e().arr_obj(1, 1).int(1).int(2)),
        ("twice", e().arr_obj(1, 1).int(1).arr_obj(1, 1).int(2)),
        ("exception object", e().arr_obj(1, 1).syst(2, "System.Exception", &["Message"], &[t_str()]).string(3, "oops")),
    ]
}

pub fn method_context(cx: &Cx, is_call: bool) {
    // where the method record stands, and what surrounds it
    let e = E::new;
    let before: Vec<E> = vec![e(), e().string(20, "b"), e().lib(1, "L"), e().sys(20, "B", &["m"]).int(1).lib(1, "L"), e().arr_obj(20, 1).null().string(21, "c"), e().sys(2, "B", &[]), e().lib(1, "L").cls(20, "B", &[], 1)];
    let between: Vec<E> = vec![e(), e().lib(2, "M"), e().string(30, "x"), e().sys(30, "S", &[])];
    let after: Vec<E> = vec![e(), e().string(40, "y"), e().lib(3, "N").sys(40, "Z", &[]), e().call(0x11, "X", "Y"), e().ret(0x411), e().lib(3, "N")];
    let methods: Vec<(i32, E)> = vec![
        (0x11, e()),
        (0x14, e().arr_obj(1, 2).int(1).r(50).string(50, "z")),
        (0x14, e().arr_obj(1, 1).r(20)),
        (0x18, e().arr_obj(1, 2).r(51).int(2).arr_obj(51, 1).int(3)),
        (0x12, e()),
        (0x11, e().arr_obj(1, 1).int(1)),
        (0x1014, e().arr_obj(1, 1).int(1)),
    ];
    let n = before.len() * between.len() * after.len() * methods.len() * 3;
    cx.par(if is_call { "calls: surroundings of the method record" } else { "returns: surroundings of the method record" }, n, |th, mut i| {
        let b = &before[pick(&mut i, before.len())];
        let w = &between[pick(&mut i, between.len())];
        let a = &after[pick(&mut i, after.len())];
        let (f, arr) = &methods[pick(&mut i, methods.len())];
        let root = [1, 0, 50][i];
        let mut m = E::msg(root).cat(b);
        m = if is_call { m.call(*f, "M", "T") } else { m.ret(*f) };
        if f & 2 != 0 {
            m = m.i32(1).u8(1).u8(1);
        }
        th.check(&m.cat(w).cat(arr).cat(a).end());
    });
    // items of the call array of every kind, at every index
    let items: Vec<(E, E)> = vec![
        (e().int(3), e()),
        (e().null(), e()),
        (e().string(60, "i"), e()),
        (e().r(61), e().string(61, "ref")),
        (e().r(62), e().arr_prim(62, 2, 2).u8(1).u8(2)),
        (e().r(63), e().arr_obj(63, 0)),
        (e().r(64), e().sys(64, "A", &["m"]).int(1)),
        (e().sys(65, "B", &["m"]).null(), e()),
        (e().typed(13, &[1, 2, 3, 4, 5, 6, 7, 0x88]), e()),
        (e().r(66), e().bin_arr(66, 2, &[2, 1], &[], &t_prim(2)).u8(1).u8(2)),
    ];
    let flags: &[i32] = if is_call { &[0x14, 0x18, 0x24, 0x48, 0x11] } else { &[0x414, 0x418, 0x1011, 0x1018, 0x1014, 0x1028, 0x1000, 0x1021, 0x2010] };
    cx.par(if is_call { "calls: call array items of every kind" } else { "returns: call array items of every kind" }, items.len().pow(3) * flags.len() * 4, |th, mut i| {
        let f = flags[pick(&mut i, flags.len())];
        let len = pick(&mut i, 4);
        let mut m = E::msg(1);
        m = if is_call { m.call(f, "M", "T") } else { m.ret(f) };
        if f & 0x20 != 0 {
            m = m.sc("ctx");
        }
        m = m.arr_obj(1, len as i32);
        let mut tail = e();
        let mut used = vec![];
        for _ in 0..len {
            let k = pick(&mut i, items.len());
            m = m.cat(&items[k].0);
            if !used.contains(&k) {
                tail = tail.cat(&items[k].1);
            }
            used.push(k);
        }
        if i > 0 {
            return;
        }
        th.check(&m.cat(&tail).end());
    });
    // longer call arrays, of fewer kinds of items
    let kinds: [fn(i32) -> (E, E); 8] = [
        |_| (E::new().int(3), E::new()),
        |_| (E::new().null(), E::new()),
        |i| (E::new().string(i, "i"), E::new()),
        |i| (E::new().r(i), E::new().arr_obj(i, 0)),
        |i| (E::new().r(i), E::new().arr_obj(i, 1).int(i)),
        |i| (E::new().r(i), E::new().arr_obj(i, 2).null().string(i + 20, "two")),
        |i| (E::new().r(i), E::new().sys(i, "A", &["m"]).int(i)),
        |i| (E::new().r(i), E::new().string(i, "ref")),
    ];
    let most = if cx.thorough { 6 } else { 5 };
    let total: usize = (4..=most).map(|l| kinds.len().pow(l)).sum();
    cx.par(if is_call { "calls: longer call arrays" } else { "returns: longer call arrays" }, total, |th, mut i| {
        let mut len = 4;
        while i >= kinds.len().pow(len) {
            i -= kinds.len().pow(len);
            len += 1
        }
        let (mut m, mut tail) = (E::new().arr_obj(1, len as i32), E::new());
        for j in 0..len as i32 {
            let (x, y) = kinds[pick(&mut i, kinds.len())](60 + j);
            m = m.cat(&x);
            tail = tail.cat(&y);
        }
        for f in flags {
            let mut h = E::msg(1);
            h = if is_call { h.call(*f, "M", "T") } else { h.ret(*f) };
            if f & 0x20 != 0 {
                h = h.sc("ctx");
            }
            th.check(&h.cat(&m).cat(&tail).end());
        }
    });
    let l = if cx.thorough { ladder(300, 70_000) } else { ladder(260, 4097) };
    cx.par(if is_call { "calls: length of the call array" } else { "returns: length of the call array" }, l.len() * 4, |th, mut i| {
        let v = pick(&mut i, 4);
        let n = l[l.len() - 1 - i] as i32;
        let f = if is_call { [0x14, 0x18, 0x14, 0x18][v] } else { [0x414, 0x418, 0x1018, 0x1011][v] };
        let mut m = E::msg(1);
        m = if is_call { m.call(f, "M", "T") } else { m.ret(f) };
        let m = if f & 8 != 0 {
            let mut m = m.arr_obj(1, 3).r(2).string(3, "second").int(3).arr_obj(2, n);
            for k in 0..n {
                m = m.int(k);
            }
            m
        } else {
            let mut m = m.arr_obj(1, n);
            for k in 0..n {
                m = m.int(k);
            }
            m
        };
        th.check(&m.end());
    });
}

// ------------------------------------------------------------------ C16: flags

pub fn flag_words(cx: &Cx, is_call: bool) {
    let suite = if is_call { "calls: all 65536 flag words" } else { "returns: all 65536 flag words" };
    cx.par(suite, 65536 * if cx.thorough { 5 } else { 2 }, |th, i| {
        let v = i / 65536;
        let low = (i % 65536) as i32;
        let high = [0, 0x10000, 0x40000000, i32::MIN, 0x00ff_0000][if cx.thorough { v } else { 0 }];
        let f = low | high;
        let mut e = E::msg(1);
        e = if is_call { e.call(f, "M", "T") } else { e.ret(f) };
        if !is_call && f & 0x800 != 0 {
            e = e.u8(8).i32(5);
        }
        if f & 0x20 != 0 {
            e = e.sc("ctx");
        }
        if f & 2 != 0 {
            e = e.i32(1).u8(2).u8(1);
        }
        if v == 0 || f & 0x100c != 0 {
            e = e.arr_obj(1, 2).r(2).null().arr_obj(2, 1).int(1);
        }
        th.check(&e.end());
    });
    cx.par(if is_call { "calls: high flag bits" } else { "returns: high flag bits" }, 32 * 32 * 32, |th, mut i| {
        let f = (1i32 << pick(&mut i, 32)) | (1 << pick(&mut i, 32)) | (1 << i);
        let mut e = E::msg(1);
        e = if is_call { e.call(f, "M", "T") } else { e.ret(f) };
        if !is_call && f & 0x800 != 0 {
            e = e.u8(8).i32(5);
        }
        if f & 0x20 != 0 {
            e = e.sc("ctx");
        }
        if f & 2 != 0 {
            e = e.i32(1).u8(2).u8(1);
        }
        th.check(&e.arr_obj(1, 2).r(2).null().arr_obj(2, 1).int(1).end());
    });
}

// ------------------------------------------------------------------ C17: codes

/// Every value of every code, with data fit for each of the known codes behind it.
pub fn codes(cx: &Cx) {
    // record codes at top level and in slots: data of each record kind behind each code
    let e = E::new;
    let bodies: Vec<E> = vec![
        e(),
        e().i32(5).i32(2),
        e().i32(5).s("A").i32(1).s("m"),
        e().i32(5).s("A").i32(1).s("m").i32(1),
        e().i32(5).s("A").i32(1).s("m").u8(0).u8(2),
        e().i32(5).s("A").i32(1).s("m").u8(0).u8(2).i32(1),
        e().i32(5).s("str"),
        e().i32(5).u8(0).i32(1).i32(1).u8(0).u8(2),
        e().u8(8).i32(7),
        e().i32(3),
        e().i32(5).s("Lib"),
        e().u8(2),
        e().i32(2),
        e().i32(5).i32(1).u8(2),
        e().i32(5).i32(1),
        e().i32(0x11).sc("M").sc("T"),
        e().i32(0x11),
    ];
    let tails: Vec<E> = vec![e(), e().null(), e().u8(9), e().int(1), e().nulls8(1), e().string(8, "t")];
    let frames: Vec<(E, E)> = vec![
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(1, "r"), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").arr_obj(1, 1), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").arr_obj(1, 2), e().null()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").arr_str(1, 1), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").sys(1, "S", &["m"]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").syst(1, "S", &["m"], &[t_obj()]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").syst(1, "S", &["m"], &[t_str()]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").syst(1, "S", &["m"], &[t_sys("A")]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").syst(1, "S", &["m"], &[t_cls("A", 1)]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").syst(1, "S", &["m"], &[t_objarr()]), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").bin_arr(1, 0, &[1], &[], &t_obj()), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").bin_arr(1, 2, &[1, 1], &[], &t_str()), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").call(0x11, "M", "T"), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").call(0x14, "M", "T"), e()),
        (E::msg(1).lib(1, "L").sys(2, "K", &["k"]).null().string(3, "x").ret(0x411), e()),
        (E::msg(1), e().string(1, "r")),
    ];
    cx.par("record codes: every byte x bodies of all records x positions", frames.len() * 256, |th, mut i| {
        let (h, t) = &frames[pick(&mut i, frames.len())];
        for b in &bodies {
            for x in &tails {
                th.check(&h.clone().u8(i as u8).cat(b).cat(x).cat(t).end());
            }
        }
    });
    // primitive type codes in every place
    let datas: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = PRIMS.iter().map(|t| raw(*t)).collect();
        v.push(vec![]);
        v.push(vec![0]);
        v.push(lps(b"txt"));
        v.push(vec![1; 16]);
        v
    };
    cx.par("primitive type codes: every byte x data x positions", 256 * 12, |th, mut i| {
        let c = pick(&mut i, 256) as u8;
        for d in &datas {
            let b = match i {
                0 => E::msg(1).arr_prim(1, 1, c).raw(d),
                1 => E::msg(1).arr_prim(1, 0, c),
                2 => E::msg(1).arr_obj(1, 1).u8(8).u8(c).raw(d),
                3 => E::msg(1).sys(1, "A", &["m"]).u8(8).u8(c).raw(d),
                4 => E::msg(1).syst(1, "A", &["m"], &[t_prim(c)]).raw(d),
                5 => E::msg(1).bin_arr(1, 0, &[1], &[], &t_prim(c)).raw(d),
                6 => E::msg(1).bin_arr(1, 0, &[0], &[], &t_prim(c)),
                7 => E::msg(1).syst(1, "A", &["m"], &[t_primarr(c)]).null(),
                8 => E::msg(1).bin_arr(1, 1, &[1], &[], &t_primarr(c)).null(),
                9 => E::msg(0).call(0x12, "M", "T").i32(1).u8(c).raw(d),
                10 => E::msg(0).ret(0x811).u8(c).raw(d),
                _ => E::msg(0).ret(0x12).i32(2).u8(c).raw(d).u8(17),
            };
            th.check(&b.clone().end());
            th.check(&b.string(9, "after").end());
        }
    });
    // member type and array kind codes
    let infos: Vec<E> = vec![e(), e().u8(8), e().s("A"), e().s("A").i32(1), e().u8(2)];
    let datas: Vec<E> = vec![e(), e().null(), e().i32(7), e().u8(3), e().string(6, "v"), e().sys(6, "A", &[]), e().cls(6, "A", &[], 1), e().int(4), e().r(1)];
    cx.par("member type codes: every byte x type info x data x positions", 256 * 4, |th, mut i| {
        let c = pick(&mut i, 256) as u8;
        for inf in &infos {
            for d in &datas {
                let h = E::msg(2).lib(1, "L").string(1, "s");
                let t = (c, inf.clone());
                let b = match i {
                    0 => h.syst(2, "S", &["m"], &[t]).cat(d),
                    1 => h.clst(2, "S", &["k", "m"], &[t_prim(2), t], 1).u8(9).cat(d),
                    2 => h.bin_arr(2, 0, &[1], &[], &t).cat(d),
                    _ => h.bin_arr(2, 5, &[1, 1], &[0, 0], &t).cat(d),
                };
                th.check(&b.end());
            }
        }
    });
    cx.par("array kind codes: every byte x ranks x bounds", 256 * 4 * 4, |th, mut i| {
        let c = pick(&mut i, 256) as u8;
        let rank = pick(&mut i, 4);
        let nb = i;
        let d = vec![1; rank];
        let b = vec![3; nb];
        th.check(&E::msg(1).bin_arr(1, c, &d, &b, &t_prim(2)).u8(7).end());
        th.check(&E::msg(1).bin_arr(1, c, &d, &b, &t_str()).string(4, "q").end());
        th.check(&E::msg(1).bin_arr(1, c, &d, &b, &t_str()).string(4, "q").string(5, "r").end());
    });
    cx.par("string codes in method records: every byte", 256 * 4, |th, mut i| {
        let c = pick(&mut i, 256) as u8;
        for d in [lps(b"x"), raw(8), vec![], vec![1], vec![0; 8]] {
            let b = match i {
                0 => E::msg(0).u8(21).i32(0x11).u8(c).raw(&d).sc("T"),
                1 => E::msg(0).u8(21).i32(0x11).sc("M").u8(c).raw(&d),
                2 => E::msg(0).call(0x21, "M", "T").u8(c).raw(&d),
                _ => E::msg(0).ret(0x21).u8(c).raw(&d),
            };
            th.check(&b.end());
        }
    });
}

// ------------------------------------------------------------------ C18: slots

/// Messages inside of what they might be wrapped in or encoded as.
pub fn wrappings(cx: &Cx) {
    let seeds = crate::corpus::seeds();
    cx.par("messages behind every one or two bytes", 2 * 65_792, |th, mut k| {
        let b = &seeds[pick(&mut k, 2) * 12].b;
        let mut v = if k < 256 { vec![k as u8] } else { vec![(k - 256) as u8, ((k - 256) >> 8) as u8] };
        v.extend_from_slice(b);
        th.check(&v);
    });
    let fills: Vec<Vec<u8>> = vec![
        vec![], vec![0xef, 0xbb, 0xbf], vec![0xff, 0xfe], vec![0xfe, 0xff], vec![0; 4], vec![0; 8], b" ".to_vec(), b"\n".to_vec(), b"\r\n".to_vec(), b"\t".to_vec(), vec![0x0b], vec![0xff], b"\"".to_vec(), b"(".to_vec(), b"<".to_vec(),
        b"[".to_vec(), b"{".to_vec(), vec![0x1f, 0x8b, 8], vec![0x78, 0x9c], b".NET\x01\0".to_vec(), b".NET".to_vec(), b"NRBF".to_vec(), b"base64:".to_vec(), b"data:;base64,".to_vec(), vec![0xce, 0xca, 0xef, 0xbe, 1, 0, 0, 0],
    ];
    let n = fills.len();
    cx.par("messages in wrappings", seeds.len() * (n + 8) * (n + 4), |th, mut k| {
        let m = &seeds[pick(&mut k, seeds.len())].b;
        let (head, tail) = (pick(&mut k, n + 8), k);
        let mut v = match head {
            h if h < n => fills[h].clone(),
            // the length in front
            h => {
                let len = m.len() as u64 + if h % 2 == 0 { 0 } else { 4 };
                match (h - n) / 2 {
                    0 => (len as u32).to_le_bytes().to_vec(),
                    1 => (len as u32).to_be_bytes().to_vec(),
                    2 => (len as u16).to_le_bytes().to_vec(),
                    _ => len.to_le_bytes().to_vec(),
                }
            }
        };
        v.extend_from_slice(m);
        match tail {
            t if t < n => v.extend_from_slice(&fills[t]),
            t if t == n => v.extend((m.len() as u32).to_le_bytes()),
            t if t == n + 1 => v.extend(m.iter().rev()),
            t if t == n + 2 => v.push(m.iter().fold(0, |a, b| a ^ b)),
            _ => v.push(m.iter().fold(0, |a: u8, b| a.wrapping_add(*b))),
        }
        th.check(&v);
    });
    cx.par("messages in another encoding", seeds.len() * 9, |th, mut k| {
        let m = &seeds[pick(&mut k, seeds.len())].b;
        let hex = |up: bool| -> Vec<u8> { m.iter().flat_map(|b| if up { format!("{b:02X}") } else { format!("{b:02x}") }.into_bytes()).collect() };
        let b64 = |pad: bool| -> Vec<u8> {
            const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let mut v = vec![];
            for c in m.chunks(3) {
                let x = c.iter().fold(0u32, |a, b| a << 8 | u32::from(*b)) << (8 * (3 - c.len()));
                v.extend((0..=c.len()).map(|i| A[(x >> (18 - 6 * i)) as usize & 63]));
                if pad {
                    v.extend(vec![b'='; 3 - c.len()])
                }
            }
            v
        };
        let v: Vec<u8> = match k {
            0 => hex(true),
            1 => hex(false),
            2 => b64(true),
            3 => b64(false),
            4 => m.iter().flat_map(|b| [*b, 0]).collect(),
            5 => m.iter().rev().copied().collect(),
            6 => m.chunks(4).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect(),
            7 => m.iter().map(|b| !b).collect(),
            _ => m.iter().flat_map(|b| char::from(*b).to_string().into_bytes()).collect(),
        };
        th.check(&v);
    });
}

/// Objects of classes with special names in slots of every type.
pub fn special_slots(cx: &Cx) {
    let words = words();
    let (n, lists) = (words.len(), 2);
    cx.par("slot types x special class names", n * lists * 14, |th, mut i| {
        let w = words[pick(&mut i, n)].as_str();
        let member: &[&str] = if pick(&mut i, lists) == 0 { &["m_value"] } else { &[] };
        let slot = match i {
            0 => t_str(),
            1 => t_obj(),
            2 => t_sys(w),
            3 => t_sys("A"),
            4 => t_cls(w, 1),
            5 => t_cls("A", 1),
            6 => t_objarr(),
            7 => t_strarr(),
            8 => t_primarr(8),
            9 => t_primarr(2),
            10 => t_prim(8),
            11 => t_prim(2),
            12 => t_sys("System.Object"),
            _ => t_cls("System.Object", 1),
        };
        let pre = |root| E::msg(root).lib(1, "L1").sys(20, w, member).cat(&if member.is_empty() { E::new() } else { E::new().null() });
        for form in 0..7 {
            let fill = |e: E| -> E {
                let e = match form {
                    0 => e.sys(30, w, member),
                    1 => e.syst(30, w, member, &vec![t_prim(2); member.len()]),
                    2 => e.syst(30, w, member, &vec![t_obj(); member.len()]),
                    3 => e.cls(30, w, member, 1),
                    4 => e.clst(30, w, member, &vec![t_obj(); member.len()], 1),
                    5 => e.byid(30, 20),
                    _ => return e.string(30, w),
                };
                match (member, form) {
                    ([], _) => e,
                    (_, 1) => e.u8(5),
                    _ => e.null(),
                }
            };
            let one = [slot.clone()];
            th.check(&fill(pre(1).syst(1, "S", &["m"], &one)).end());
            th.check(&fill(pre(1).clst(1, "S", &["m"], &one, 1)).end());
            th.check(&fill(pre(1).bin_arr(1, 0, &[1], &[], &slot)).end());
            th.check(&fill(pre(1).clst(1, "S", &["m", "n"], &[slot.clone(), t_prim(2)], 1)).u8(12).end());
            if i == 0 {
                th.check(&fill(pre(1).arr_str(1, 1)).end());
            }
        }
    });
}

pub fn slot_matrix(cx: &Cx) {
    let mut slots: Vec<(u8, E)> = vec![t_obj(), t_str(), t_sys("A"), t_sys("B"), t_sys(""), t_cls("A", 1), t_cls("A", 2), t_cls("B", 1), t_cls("A", 3), t_objarr(), t_strarr()];
    for t in PRIMS {
        slots.push(t_primarr(t));
    }
    let e = E::new;
    let mut recs: Vec<(E, E)> = vec![
        (e().null(), e()),
        (e().nulls8(1), e()),
        (e().nulls(1), e()),
        (e().nulls8(2), e()),
        (e().nulls(0), e()),
        (e().string(30, "s"), e()),
        (e().string(30, ""), e()),
        (e().lib(9, "N").null(), e()),
        (e().lib(9, "N").string(30, "s"), e()),
        (e().lib(9, "N").int(1), e()),
        (e().lib(9, "N").r(31), e().string(31, "x")),
        (e().r(31), e().string(31, "x")),
        (e().r(31), e().sys(31, "A", &[])),
        (e().r(31), e().sys(31, "B", &["q"]).null()),
        (e().r(31), e().cls(31, "A", &[], 1)),
        (e().r(31), e().cls(31, "A", &[], 2)),
        (e().r(31), e().arr_obj(31, 1).null()),
        (e().r(31), e().arr_str(31, 0)),
        (e().r(31), e().arr_prim(31, 1, 8).i32(1)),
        (e().r(31), e().bin_arr(31, 1, &[1], &[], &t_objarr()).null()),
        (e().r(20), e()),
        (e().r(21), e()),
        (e().r(77), e()),
        (e().arr_obj(30, 0), e()),
        (e().arr_str(30, 0), e()),
        (e().arr_prim(30, 0, 8), e()),
        (e().bin_arr(30, 0, &[0], &[], &t_obj()), e()),
        (e().u8(11), e()),
        (e().call(0x11, "M", "T"), e()),
        (e().byid(30, 20).null(), e()),
        (e().byid(30, 22), e()),
        (e().byid(30, 21), e()),
        (e().lib(9, "L1").cls(30, "A", &[], 9), e()),
        (e().lib(9, "N").sys(30, "A", &[]), e()),
        (e().lib(9, "N").cls(30, "A", &[], 1), e()),
        (e().lib(9, "N").cls(30, "A", &[], 9), e()),
    ];
    for t in PRIMS {
        recs.push((e().typed(t, &raw(t)), e()));
    }
    for name in ["A", "B", "", "A`1"] {
        recs.push((e().sys(30, name, &["m"]).int(1), e()));
        recs.push((e().syst(30, name, &[], &[]), e()));
        for l in [1, 2, 3] {
            recs.push((e().cls(30, name, &["m"], l).int(1), e()));
            recs.push((e().clst(30, name, &["m"], &[t_prim(2)], l).u8(1), e()));
        }
    }
    let pos = 7;
    cx.par("slot types x records x positions", slots.len() * recs.len() * pos, |th, mut i| {
        let sl = &slots[pick(&mut i, slots.len())];
        let (r, tail) = &recs[pick(&mut i, recs.len())];
        // library 3 has the same name as library 1
        let pre = |root| E::msg(root).lib(1, "L1").sys(20, "A", &["p"]).null().lib(2, "L2").cls(22, "A", &[], 1).lib(3, "L1").string(21, "pre");
        let b = match i {
            0 => pre(1).syst(1, "S", &["m"], &[sl.clone()]).cat(r),
            1 => pre(1).clst(1, "S", &["m", "n"], &[sl.clone(), t_prim(2)], 2).cat(r).u8(12),
            2 => pre(1).clst(1, "S", &["k", "m"], &[t_str(), sl.clone()], 1).null().cat(r),
            3 => pre(1).bin_arr(1, 0, &[1], &[], sl).cat(r),
            4 => pre(1).bin_arr(1, 2, &[1, 2], &[], sl).null().cat(r),
            5 => pre(1).bin_arr(1, 1, &[2], &[], sl).cat(r).null(),
            // re-used class
            _ => pre(1).syst(50, "S", &["m"], &[sl.clone()]).null().byid(1, 50).cat(r),
        };
        th.check(&b.clone().cat(tail).end());
        th.check(&b.cat(tail).string(99, "after").end());
    });
    // untyped classes and object arrays accept everything self-describing
    cx.par("untyped slots x records", recs.len() * 6, |th, mut i| {
        let (r, tail) = &recs[pick(&mut i, recs.len())];
        let pre = || E::msg(1).lib(1, "L1").sys(20, "A", &["p"]).null().lib(2, "L2").cls(22, "A", &[], 1).lib(3, "L1").string(21, "pre");
        let b = match i {
            0 => pre().sys(1, "S", &["m"]).cat(r),
            1 => pre().cls(1, "S", &["m", "n"], 1).cat(r).int(1),
            2 => pre().arr_obj(1, 1).cat(r),
            3 => pre().arr_str(1, 1).cat(r),
            4 => pre().call(0x14, "M", "T").arr_obj(1, 1).cat(r),
            _ => pre().arr_obj(1, 2).int(5).cat(r),
        };
        th.check(&b.cat(tail).end());
    });
    // pairs of slots
    let few: Vec<usize> = vec![0, 1, 2, 5, 9, 10, 14];
    cx.par("pairs of slots x pairs of records", few.len() * few.len() * recs.len() * recs.len(), |th, mut i| {
        let (a, b) = (&slots[few[pick(&mut i, few.len())]], &slots[few[pick(&mut i, few.len())]]);
        let (ra, ta) = &recs[pick(&mut i, recs.len())];
        let (rb, tb) = &recs[i];
        let pre = E::msg(1).lib(1, "L1").sys(20, "A", &["p"]).null().lib(2, "L2").cls(22, "A", &[], 1).lib(3, "L1").string(21, "pre");
        // make ids unique
        let shift = |e: &E| {
            let mut b = e.0.clone();
            for p in 1..b.len().saturating_sub(3).max(1) {
                if p + 4 <= b.len() && (b[p..p + 4] == [30, 0, 0, 0] || b[p..p + 4] == [31, 0, 0, 0]) {
                    b[p] += 10;
                    break;
                }
            }
            for p in 0..b.len().saturating_sub(4) {
                if b[p..p + 5] == [12, 9, 0, 0, 0] && p == 0 {
                    b[p + 1] = 19;
                }
            }
            E(b)
        };
        th.check(&pre.syst(1, "S", &["x", "y"], &[a.clone(), b.clone()]).cat(ra).cat(&shift(rb)).cat(ta).cat(&shift(tb)).end());
    });
}

