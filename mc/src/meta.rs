//! C23: every encoding of the same data means the same.
use crate::enc::E;
use crate::suites::pick;
use crate::encode::{Choices, encode};
use crate::harness::Cx;
use crate::rv::{RMsg, RObj, RVal};

pub fn o(class: &str, lib: Option<&str>, m: Vec<(&str, RVal)>) -> RVal {
    RVal::Obj(RObj { class: class.into(), lib: lib.map(|l| l.into()), members: m.into_iter().map(|(n, v)| (n.to_string(), v)).collect() })
}
pub fn a(v: Vec<RVal>) -> RVal {
    RVal::Arr(v)
}
pub fn s(x: &str) -> RVal {
    RVal::Str(x.into())
}
pub const N: RVal = RVal::Null;
pub fn i(n: i32) -> RVal {
    RVal::I32(n)
}

pub fn values() -> Vec<RVal> {
    let l = Some("Lib");
    vec![
        s("root"),
        a(vec![]),
        a(vec![i(1), i(2)]),
        a(vec![N, N, N]),
        a(vec![s("a"), N, N, s("a")]),
        a(vec![s("a"), s("b"), s("a")]),
        a(vec![N, i(1), N, N, s("x"), N]),
        o("A", None, vec![]),
        o("A", None, vec![("x", i(1)), ("y", s("t"))]),
        o("A", l, vec![("x", N), ("y", i(2))]),
        o("A", l, vec![("s", s("t")), ("t", s("t"))]),
        o("A", None, vec![("in", o("B", None, vec![("x", i(1))])), ("arr", a(vec![i(5)]))]),
        o("A", l, vec![("in", o("B", l, vec![("x", i(1))])), ("s", s("q"))]),
        o("A", l, vec![("in", o("B", Some("Lib2"), vec![("x", N)]))]),
        a(vec![o("A", None, vec![("x", i(1))]), o("A", None, vec![("x", i(2))])]),
        a(vec![o("A", l, vec![("x", i(1))]), N, o("A", l, vec![("x", i(2))])]),
        a(vec![o("A", None, vec![("x", i(1)), ("y", s("u"))]), o("A", None, vec![("x", s("u")), ("y", N)])]),
        a(vec![o("A", l, vec![("x", s("u"))]), o("A", None, vec![("x", s("u"))]), o("A", l, vec![("x", N)])]),
        a(vec![o("A", None, vec![("n", o("A", None, vec![("n", N)]))])]),
        o("N", l, vec![("n", o("N", l, vec![("n", o("N", l, vec![("n", N)]))]))]),
        a(vec![a(vec![i(1), i(2)]), a(vec![i(3), i(4)])]),
        a(vec![a(vec![i(1)]), a(vec![N, s("x")])]),
        a(vec![a(vec![s("x"), N]), a(vec![N, s("x")])]),
        a(vec![a(vec![N, N]), a(vec![N, N])]),
        a(vec![a(vec![o("A", None, vec![("x", i(1))])]), a(vec![o("A", None, vec![("x", i(2))])])]),
        a(vec![a(vec![a(vec![i(7)])])]),
        o("A", None, vec![("p", a(vec![i(1), i(2)])), ("q", a(vec![s("a")])), ("r", a(vec![N]))]),
        a(vec![o("A", None, vec![("x", i(1))]), o("B", None, vec![("x", i(2))]), o("A", None, vec![("x", i(3))]), o("B", None, vec![("x", i(4))])]),
        o(
            "System.Collections.Generic.List`1[[System.String]]",
            None,
            vec![("_items", a(vec![s("a"), s("b"), N, N])), ("_size", i(2)), ("_version", i(2))],
        ),
        a(vec![RVal::Bool(true), RVal::Byte(9), RVal::Char('ß'), RVal::Dec("1.50".into()), RVal::F64(1.5f64.to_bits()), RVal::I16(-2), RVal::I64(-3), RVal::I8(-4)]),
        o("P", l, vec![("a", RVal::F32(2.5f32.to_bits())), ("b", RVal::TimeSpan(-7)), ("c", RVal::DateTime(i64::MIN + 5)), ("d", RVal::U16(60000)), ("e", RVal::U32(4_000_000_000)), ("f", RVal::U64(u64::MAX))]),
    ]
}

const PAIRS: &[&[&str]] = &[
    &["ids", "library ids", "library place"],
    &["library again", "library place", "class record", "member type"],
    &["library again", "library ids", "object place", "array form"],
    &["array place", "array form", "object place"],
    &["string place", "null run length", "null record"],
    &["class record", "member type", "object place"],
    &["class record", "member type", "library place", "library ids"],
    &["class record", "member type", "string place"],
    &["array form", "null run length", "null record"],
    &["string place", "array form", "array place"],
    &["string place", "object place", "array place"],
    &["ids", "class record", "object place"],
];

pub fn encodings(cx: &Cx) {
    let vals = values();
    let limit = if cx.thorough { 3_000_000 } else { 60_000 };
    let n_modes = 2 + PAIRS.len();
    cx.par("all encodings of a value", vals.len() * n_modes, |th, idx| {
        let (v, mode) = (&vals[idx % vals.len()], idx / vals.len());
        let mut c = Choices::new(mode == 1);
        if mode >= 2 {
            c.only = Some(PAIRS[mode - 2]);
        }
        let want = RMsg::Value(v.clone());
        let mut n = 0u64;
        loop {
            let b = encode(v, &mut c);
            th.check_known(&b, &want);
            n += 1;
            if th.stopped() {
                return;
            }
            if n >= limit {
                th.count("choice trees cut off at the limit");
                break;
            }
            if !c.next() {
                th.count("choice trees explored completely");
                break;
            }
        }

    });
}

/// Every grouping of a run of nulls: nulls one by one, runs with one-byte and four-byte counts, cut at every (or, in long
/// runs, many a) place.
pub fn null_groups(cx: &Cx) {
    let ns = crate::suites::ladder(20, if cx.thorough { 300_000 } else { 66_000 });
    cx.par("groupings of a run of nulls", ns.len() * 3, |th, mut k| {
        let kind = pick(&mut k, 3);
        let n = ns[ns.len() - 1 - k] as i32;
        if n == 0 {
            return;
        }
        let run = |e: E, how: usize, n: i32| match how {
            _ if n == 0 => e,
            0 => e.nulls(n),
            1 => {
                let e = (0..n / 255).fold(e, |e, _| e.nulls8(255));
                if n % 255 == 0 { e } else { e.nulls8((n % 255) as u8) }
            }
            _ => (0..n).fold(e, |e, _| e.null()),
        };
        let total = n + 2;
        let items = |mid: usize| -> RVal {
            let mut v = vec![i(1)];
            v.extend((0..n).map(|_| N));
            v.insert(mid + 1, s("m"));
            a(v)
        };
        let mut cuts: Vec<i32> = if n <= 40 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n, 127, 128, 255, 256, 257, n - 255, n - 256] };
        cuts.retain(|c| *c >= 0 && *c <= n);
        for cut in cuts {
            let v = items(cut as usize);
            let want = RMsg::Value(if kind == 2 { a(vec![v]) } else { v });
            for h1 in 0..3 {
                for h2 in 0..3 {
                    if n > 5000 && (h1 + h2) % 2 == 1 {
                        continue;
                    }
                    let e = E::msg(1);
                    let e = match kind {
                        0 => e.arr_obj(1, total),
                        1 => e.raw(&[7]).i32(1).raw(&[0]).i32(1).i32(total).raw(&[2]),
                        _ => e.raw(&[7]).i32(1).raw(&[2]).i32(2).i32(1).i32(total).raw(&[2]),
                    };
                    let e = run(e.int(1), h1, cut).string(50, "m");
                    let e = run(e, h2, n - cut);
                    th.check_known(&e.end(), &want);
                }
            }
        }
    });
}
