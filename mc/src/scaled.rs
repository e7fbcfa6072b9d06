//! Families of messages with one dimension that grows, each with the properties it is about.
use crate::corpus::{PRIMS, raw};
use crate::enc::*;
use crate::harness::Cx;
use crate::suites::{ladder, pick};

/// A message of size n, if there is one.
type Make = Box<dyn Fn(i32) -> Option<E> + Sync>;
pub struct Maker {
    pub about: &'static str,
    /// The largest n that is reasonable.
    pub max: usize,
    make: Make,
}
impl Maker {
    pub fn new(about: &'static str, max: usize, make: Make) -> Self {
        Maker { about, max, make }
    }
    /// Of any size.
    pub fn any(&self, n: usize) -> Option<Vec<u8>> {
        (self.make)(n as i32).map(|e| e.end())
    }
    pub fn at(&self, n: usize) -> Option<Vec<u8>> {
        if n > self.max { None } else { (self.make)(n as i32).map(|e| e.end()) }
    }
}

fn many(n: i32, e: E, f: impl Fn(E, i32) -> E) -> E {
    (0..n).fold(e, f)
}
/// n members.
fn names(n: i32) -> Vec<String> {
    (0..n).map(|i| format!("m{i}")).collect()
}
fn refs(l: &[String]) -> Vec<&str> {
    l.iter().map(|s| s.as_str()).collect()
}
fn v(k: i32) -> String {
    format!("v{k}")
}
/// Another kind of object for every k, with content that tells it from the others.
fn mixed(e: E, id: i32, k: i32) -> E {
    match k % 5 {
        0 => e.string(id, &v(k)),
        1 => e.arr_obj(id, 1).int(k),
        2 => e.sys(id, &v(k), &["m"]).int(k),
        3 => e.arr_prim(id, 1, 8).i32(k),
        _ => e.syst(id, "T", &["a", "b"], &[t_prim(8), t_obj()]).i32(k).null(),
    }
}

pub fn makers() -> Vec<Maker> {
    const HUGE: usize = (1 << 24) + 1;
    const BIG: usize = (1 << 20) + 1;
    const MID: usize = 80_000;
    const DEEP: usize = 2000;
    let mut l: Vec<Maker> = vec![];
    let mut add = |about: &'static str, max: usize, make: Make| l.push(Maker { about, max, make });
    let m = || E::msg(1);
    add("C04", HUGE, Box::new(move |n| Some(m().string(1, &"x".repeat(n as usize)))));
    // arrays
    add("C08", BIG, Box::new(move |n| Some(many(n, m().arr_obj(1, n), |e, i| e.int(i)))));
    add("C08", MID, Box::new(move |n| Some(many(n, m().arr_str(1, n), |e, i| e.string(i + 2, &v(i))))));
    add("C08", MID, Box::new(move |n| Some(many(n, m().arr_obj(1, n), |e, i| mixed_inline(e, i + 2, i)))));
    add("C08", HUGE, Box::new(move |n| Some(many(n, m().arr_prim(1, n, 2), |e, i| e.u8(i as u8 ^ (i >> 8) as u8)))));
    for t in PRIMS {
        add("C08 C03", MID, Box::new(move |n| Some(many(n, m().arr_prim(1, n, t), |e, _| e.raw(&raw(t))))));
        add("C08 C03", MID, Box::new(move |n| Some(many(n, m().bin_arr(1, 0, &[n], &[], &t_prim(t)), |e, _| e.raw(&raw(t))))));
    }
    // one other element first, last or in the middle, or nothing but that element
    for t in PRIMS {
        for x in others(t) {
            for place in 0..4 {
                for whole in [false, true] {
                    let x = x.clone();
                    add("C08 C03", 2100, Box::new(move |n| {
                        let at = [0, n - 1, n / 2, -1][place];
                        let e = if whole { m().bin_arr(1, 0, &[n], &[], &t_prim(t)) } else { m().arr_prim(1, n, t) };
                        let usual = raw(t);
                        (n > 0).then(|| many(n, e, |e, i| e.raw(if i == at || at < 0 { &x } else { &usual })))
                    }));
                }
            }
        }
    }
    // the same of arrays of objects and strings
    for kind in 0..8 {
        for place in 0..4 {
            add("C08", 2100, Box::new(move |n| {
                let at = [0, n - 1, n / 2, -1][place];
                let other = move |e: E, i: i32| match kind % 8 {
                    0 => e.null(),
                    1 => e.string(i + 2, ""),
                    2 => e.r(1_000_000 + i),
                    3 => e.sys(i + 2, "A", &[]),
                    4 => e.typed(1, &[0]),
                    5 => e.lib(i + 2, "L").cls(1_000_000 + i, "A", &["x"], i + 2).null(),
                    6 => e.nulls8(1),
                    _ => e.nulls(1),
                };
                let e = if place < 3 && kind % 2 == 0 { m().arr_obj(1, n) } else { m().bin_arr(1, 0, &[n], &[], &t_obj()) };
                let e = (n > 0).then(|| many(n, e, |e, i| if i == at || at < 0 { other(e, i) } else { e.string(i + 2, &v(i)) }))?;
                Some(if kind == 2 { many(n, e, |e, i| if i == at || at < 0 { e.string(1_000_000 + i, &v(i)) } else { e }) } else { e })
            }));
        }
    }
    // null runs
    let arrays: [(&str, fn(i32) -> E); 7] = [
        ("C08 C23", |n| E::msg(1).arr_obj(1, n)),
        ("C08 C23", |n| E::msg(1).arr_str(1, n)),
        ("C08 C23", |n| E::msg(1).bin_arr(1, 0, &[n], &[], &t_obj())),
        ("C08 C23", |n| E::msg(1).bin_arr(1, 0, &[n], &[], &t_str())),
        ("C08 C23", |n| E::msg(1).bin_arr(1, 0, &[n], &[], &t_sys("S"))),
        ("C08 C23", |n| E::msg(1).bin_arr(1, 1, &[n], &[], &t_primarr(8))),
        ("C09 C23", |n| E::msg(1).bin_arr(1, 2, &[1, n], &[], &t_objarr())),
    ];
    for (about, a) in arrays {
        add(about, BIG, Box::new(move |n| (n > 0).then(|| a(n).nulls(n))));
        add(about, BIG, Box::new(move |n| Some(many(n, a(n), |e, _| e.null()))));
        add(about, BIG, Box::new(move |n| Some(many((n % 255 > 0).into(), many(n / 255, a(n), |e, _| e.nulls8(255)), |e, _| e.nulls8((n % 255) as u8)))));
        // a run in between
        add(about, BIG, Box::new(move |n| (n > 2).then(|| a(n).null().nulls(n - 2).null())));
        // one too many, one too few
        add(about, MID, Box::new(move |n| (n > 1).then(|| a(n).nulls(n + 1))));
        add(about, MID, Box::new(move |n| (n > 1).then(|| a(n).nulls(n - 1))));
        add(about, MID, Box::new(move |n| (n > 1).then(|| a(n).nulls(n - 1).nulls(2))));
    }
    add("C08 C23", BIG, Box::new(move |n| (n > 1).then(|| m().arr_str(1, n).string(2, "first").nulls(n - 1))));
    add("C08 C23", BIG, Box::new(move |n| (n > 1).then(|| m().arr_str(1, n).nulls(n - 1).string(2, "last"))));
    add("C08 C23", BIG, Box::new(move |n| (n > 1).then(|| m().arr_obj(1, n).nulls(n - 1).r(2).string(2, "last"))));
    // members
    add("C06", MID, Box::new(move |n| Some(many(n, m().sys(1, "A", &refs(&names(n))), |e, i| e.int(i)))));
    add("C06", MID, Box::new(move |n| Some(many(n, m().lib(1, "L").cls(1, "A", &refs(&names(n)), 1), |e, i| e.string(i + 2, &v(i))))));
    for library in [false, true] {
        add("C06 C18", 9000, Box::new(move |n| {
            // every kind of member in turn
            let kinds: Vec<(u8, E)> = PRIMS.iter().map(|t| t_prim(*t)).chain([t_str(), t_obj(), t_sys("S"), t_objarr(), t_strarr(), t_primarr(8)]).collect();
            let types: Vec<(u8, E)> = (0..n).map(|i| kinds[i as usize % kinds.len()].clone()).collect();
            let (l, e) = (names(n), m().lib(1, "L"));
            let e = if library { e.clst(1, "A", &refs(&l), &types, 1) } else { e.syst(1, "A", &refs(&l), &types) };
            Some(many(n, e, |e, i| match i as usize % kinds.len() {
                k if k < PRIMS.len() => e.raw(&raw(PRIMS[k])),
                15 => e.string(i + 2, &v(i)),
                16 => e.int(i),
                17 => e.sys(i + 2, "S", &["x"]).int(i),
                _ => e.null(),
            }))
        }));
    }
    // classes
    add("C07", MID, Box::new(move |n| Some(many(n, m().arr_obj(1, n + 1).sys(2, "A", &["a", "b", "c"]).null().null().null(), |e, i| e.byid(i + 3, 2).null().int(i).null()))));
    add("C07", MID, Box::new(move |n| {
        let k = (n as f64).sqrt() as i32 + 1;
        let e = many(k, m().arr_obj(1, k + 1).sys(2, "A", &refs(&names(k))), |e, _| e.null());
        Some(many(k, e, |e, i| many(k, e.byid(i + 3, 2), |e, j| e.int(i * k + j))))
    }));
    add("C07 C11", MID, Box::new(move |n| Some(many(n, m().sys(1, "A", &["a", "b"]).null().null(), |e, i| e.byid(i + 2, 1).null().null()))));
    add("C07", MID, Box::new(move |n| (n > 0).then(|| many(n, E::msg(n + 1).sys(1, "A", &["a", "b"]).null().null(), |e, i| e.byid(i + 2, 1).null().int(i)))));
    add("C06 C07", MID, Box::new(move |n| Some(many(n, m().arr_obj(1, n), |e, i| e.syst(i + 2, &v(i), &["a"], &[t_prim(2)]).u8(i as u8)))));
    // as many definitions, the last, the first and the middle one re-used
    for which in 0..3 {
        add("C07", MID, Box::new(move |n| {
            let d = [2, n / 2 + 2, n + 1][which];
            (n > 1).then(|| many(n, m().arr_obj(1, n + 1), |e, i| if i % 2 == 0 { e.sys(i + 2, &v(i), &["a"]).int(i) } else { e.syst(i + 2, &v(i), &["a"], &[t_prim(8)]).i32(i) }).byid(n + 2, d)).map(|e| if (d - 2) % 2 == 0 { e.int(-1) } else { e.i32(-1) })
        }));
    }
    // libraries
    add("C13", MID, Box::new(move |n| Some(many(n, m().arr_obj(1, n), |e, i| e.lib(i + 1, &v(i)).cls(i + 2, "A", &[], i + 1)))));
    add("C13", MID, Box::new(move |n| Some(many(n, m().arr_obj(1, n), |e, i| e.lib(n - i, &v(i)).clst(i + 2, "A", &["a"], &[t_prim(8)], n - i).i32(i)))));
    add("C13", MID, Box::new(move |n| Some(many(n, m().lib(1, "L").arr_obj(1, n), |e, i| e.cls(i + 2, "A", &["a"], 1).int(i)))));
    add("C13 C18", MID, Box::new(move |n| Some(many(n, m().lib(1, "L").bin_arr(1, 0, &[n], &[], &t_cls("A", 1)), |e, i| if i == 0 { e.cls(2, "A", &["a"], 1).int(i) } else { e.byid(i + 2, 2).int(i) }))));
    // references
    for str in [true, false] {
        let o = move |e: E, i: i32| if str { e.string(i + 2, &v(i)) } else { mixed(e, i + 2, i) };
        add("C10", MID, Box::new(move |n| Some(many(n, many(n, m().arr_obj(1, n), |e, i| e.r(i + 2)), o))));
        add("C10", MID, Box::new(move |n| Some(many(n, many(n, m().arr_obj(1, n), |e, i| e.r(n + 1 - i)), o))));
        add("C10", MID, Box::new(move |n| Some(many(n, many(n, m(), o).arr_obj(1, n), |e, i| e.r(i + 2)))));
        add("C10", MID, Box::new(move |n| Some(many(n, many(n, m(), o).arr_obj(1, n), |e, i| e.r(n + 1 - i)))));
        add("C10", 9000, Box::new(move |n| Some(many(n, many(n, m().sys(1, "A", &refs(&names(n))), |e, i| e.r(i + 2)), o))));
        add("C10", 9000, Box::new(move |n| Some(many(n, many(n, m(), o).sys(1, "A", &refs(&names(n))), |e, i| e.r(n + 1 - i)))));
        // few of many
        for k in 0..4 {
            for first in [true, false] {
                add("C10 C11", MID, Box::new(move |n| {
                    (n >= k).then(|| {
                        let root = |e: E| many(k, e.arr_obj(1, k), |e, i| e.r(if i % 2 == 0 { i / 2 + 2 } else { n + 1 - i / 2 }));
                        if first { many(n, root(m()), o) } else { root(many(n, m(), o)) }
                    })
                }));
            }
        }
        // one member a reference
        add("C10 C11", MID, Box::new(move |n| (n > 0).then(|| many(n, m().sys(1, "A", &["a"]).r(n + 1), o))));
        // the root is one of many
        for at in 0..4 {
            add("C11", MID, Box::new(move |n| Some(many(n, E::msg([2, n / 2 + 2, n + 1, n + 2][at]), o))));
        }
    }
    add("C10", MID, Box::new(move |n| Some(many(n, m().arr_str(1, n), |e, i| e.r(i + 2)).cat(&many(n, E::new(), |e, i| e.string(i + 2, &v(i)))))));
    add("C10", BIG, Box::new(move |n| Some(many(n, m().arr_obj(1, n + 1).string(2, "a longer string"), |e, _| e.r(2)))));
    add("C10", BIG, Box::new(move |n| Some(many(n, m().arr_str(1, n + 1), |e, _| e.r(2)).r(3).string(3, "b").string(2, "a"))));
    add("C10 C11", MID, Box::new(move |n| Some(many(n, m().string(1, "root"), |e, i| mixed(e, i + 2, i)))));
    add("C10 C09", MID, Box::new(move |n| Some(many(n, many(n, m().bin_arr(1, 1, &[n], &[], &t_primarr(2)), |e, i| e.r(i + 2)), |e, i| e.arr_prim(i + 2, 1, 2).u8(i as u8)))));
    // rectangular
    add("C09", MID, Box::new(move |n| (n > 0).then(|| many(2 * n, m().bin_arr(1, 2, &[n, 2], &[], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", MID, Box::new(move |n| (n > 0).then(|| many(2 * n, m().bin_arr(1, 2, &[2, n], &[], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", MID, Box::new(move |n| (n > 0).then(|| many(n, m().bin_arr(1, 2, &[n, 1], &[], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", MID, Box::new(move |n| (n > 0).then(|| many(n, m().bin_arr(1, 2, &[1, 1, n], &[], &t_obj()), |e, i| e.int(i)))));
    add("C09", MID, Box::new(move |n| (n > 0).then(|| many(n, m().bin_arr(1, 5, &[1, n, 1], &[n, n, n], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", 700, Box::new(move |n| (n > 0).then(|| many(n * n, m().bin_arr(1, 2, &[n, n], &[], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", 80, Box::new(move |n| (n > 0).then(|| many(n * n * n, m().bin_arr(1, 2, &[n, n, n], &[], &t_prim(8)), |e, i| e.i32(i)))));
    add("C09", DEEP, Box::new(move |n| (n > 0).then(|| m().bin_arr(1, 2, &vec![1; n as usize], &[], &t_prim(8)).i32(7))));
    // calls and returns
    add("C14", MID, Box::new(move |n| Some(many(n, E::msg(0).call(0x12, "M", "T").i32(n), |e, i| e.u8(8).i32(i)))));
    add("C14", MID, Box::new(move |n| Some(many(n, m().call(0x14, "M", "T").arr_obj(1, n), |e, i| e.int(i)))));
    add("C14", MID, Box::new(move |n| Some(many(n, m().call(0x18, "M", "T").arr_obj(1, 1).r(2).arr_obj(2, n), |e, i| e.int(i)))));
    add("C14", MID, Box::new(move |n| Some(many(n, m().call(0x14, "M", "T").arr_obj(1, n), |e, i| e.r(i + 2)).cat(&many(n, E::new(), |e, i| mixed(e, i + 2, i))))));
    add("C14", HUGE, Box::new(move |n| Some(E::msg(0).call(0x11, &"m".repeat(n as usize), &"t".repeat(n as usize / 2)))));
    add("C15", MID, Box::new(move |n| Some(many(n, E::msg(0).ret(0x12).i32(n), |e, i| e.u8(2).u8(i as u8)))));
    add("C15", MID, Box::new(move |n| Some(many(n, E::msg(0).ret(0x812).u8(8).i32(5).i32(n), |e, i| e.u8(8).i32(i)))));
    add("C15", MID, Box::new(move |n| Some(many(n, m().ret(0x414).arr_obj(1, n), |e, i| e.int(i)))));
    add("C15", MID, Box::new(move |n| Some(many(n, m().ret(0x1011).arr_obj(1, n + 1), |e, i| e.int(i)).int(-1))));
    add("C15", MID, Box::new(move |n| Some(many(n, m().ret(0x218).arr_obj(1, 1).r(2).arr_obj(2, n), |e, i| e.int(i)))));
    // long names everywhere
    add("C06 C13", BIG, Box::new(move |n| {
        let l = "n".repeat(n as usize);
        let k = format!("{l}m");
        Some(m().lib(1, &l).clst(1, &l, &[&k], &[t_cls(&l, 1)], 1).null())
    }));
    // nesting, of every kind
    add("C06", DEEP, Box::new(move |n| Some(many(n + 1, m(), |e, i| e.sys(i + 1, &v(i), &["m"])).int(1))));
    add("C06", DEEP, Box::new(move |n| Some(many(n + 1, m().lib(1, "L"), |e, i| e.cls(i + 1, &v(i), &["m"], 1)).int(1))));
    add("C06 C18", DEEP, Box::new(move |n| Some(many(n + 1, m(), |e, i| e.syst(i + 1, &v(i), &["m"], &[t_sys(&v(i + 1))])).null())));
    add("C06 C18", DEEP, Box::new(move |n| Some(many(n + 1, m().lib(1, "L"), |e, i| e.clst(i + 1, &v(i), &["m"], &[t_cls(&v(i + 1), 1)], 1)).null())));
    add("C06 C18", DEEP, Box::new(move |n| Some(many(n + 1, m().lib(1, "L"), |e, i| e.clst(i + 1, &v(i), &["a", "m"], &[t_prim(8), t_obj()], 1).i32(i)).null())));
    add("C07", DEEP, Box::new(move |n| Some(many(n, m().sys(1, "A", &["m"]), |e, i| e.byid(i + 2, 1)).int(1))));
    add("C07", DEEP, Box::new(move |n| Some(many(n, m().lib(1, "L").clst(1, "A", &["v", "m", "w"], &[t_prim(8), t_cls("A", 1), t_prim(8)], 1).i32(-1), |e, i| e.byid(i + 2, 1).i32(i)).null()).map(|e| many(n + 1, e, |e, i| e.i32(i)))));
    add("C14", DEEP, Box::new(move |n| Some(many(n, m().call(0x14, "M", "T").arr_obj(1, 1), |e, i| e.sys(i + 2, &v(i), &["m"])).int(1))));
    // chains, deepest last and first, and from both ends
    add("C10", DEEP, Box::new(move |n| Some(many(n, m(), |e, i| e.arr_obj(i + 1, 1).r(i + 2)).string(n + 1, "end"))));
    add("C10", DEEP, Box::new(move |n| Some(many(n, E::msg(n + 1).string(1, "end"), |e, i| e.arr_obj(i + 2, 1).r(i + 1)))));
    add("C10", DEEP, Box::new(move |n| Some(many(n, m(), |e, i| e.sys(i + 1, &v(i), &["a", "b"]).int(i).r(i + 2)).string(n + 1, "end"))));
    add("C10", DEEP, Box::new(move |n| Some(many(n, E::msg(n + 1).string(1, "end"), |e, i| e.sys(i + 2, &v(i), &["a", "b"]).r(i + 1).int(i)))));
    add("C10", DEEP, Box::new(move |n| Some(many(n / 2, many(n / 2, m(), |e, i| e.arr_obj(2 * i + 1, 1).r(2 * i + 2)), |e, i| e.arr_obj(2 * i + 2, 1).r(2 * i + 3)).string(n / 2 * 2 + 1, "end"))));
    // identifiers: the last, the first and the middle one used twice or undefined
    for which in 0..3 {
        let at = move |n: i32| [2, n / 2 + 2, n + 1][which];
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, 0), |e, i| e.string(i + 2, &v(i))).string(at(n), "again"))));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, n + 1), |e, i| e.sys(i + 2, &v(i), &[])).sys(at(n), "again", &[]))));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, 0), |e, i| e.arr_prim(i + 2, 0, 1)).arr_obj(at(n), 0))));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, n + 1), |e, i| e.lib(i + 2, &v(i)).cls(i + 2, "A", &[], i + 2)).lib(at(n), "again").cls(n + 2, "A", &[], at(n)))));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, many(n, m().arr_obj(1, n), |e, i| e.r(i + 2)), |e, i| if i + 2 == at(n) { e } else { e.string(i + 2, &v(i)) }))));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, n + 1), |e, i| if i + 2 == at(n) { e.string(i + 2, &v(i)) } else { e.sys(i + 2, &v(i), &["a"]).null() }).byid(n + 2, at(n)).null())));
        add("C12", MID, Box::new(move |n| (n > 0).then(|| many(n, m().arr_obj(1, n), |e, i| if i + 2 == at(n) { e.null() } else { e.lib(i + 2, &v(i)).cls(i + 2, &v(i), &[], i + 2) }).cls(n + 2, "A", &[], at(n)))));
    }
    l
}
/// Elements of this type that differ from the usual one in every respect that may matter.
pub fn others(t: u8) -> Vec<Vec<u8>> {
    let size = match t {
        2 | 10 => 1,
        7 | 14 => 2,
        8 | 11 | 15 => 4,
        6 | 9 | 12 | 13 | 16 => 8,
        _ => 0,
    };
    match t {
        1 => vec![vec![0], vec![1]],
        3 => ["\0", "\u{7f}", "é", "€", "𝄞"].iter().map(|c| c.as_bytes().to_vec()).collect(),
        5 => ["0", "-1.50", "79228162514264337593543950335"].iter().map(|c| lps(c.as_bytes())).collect(),
        18 => vec![lps(b""), lps("é".as_bytes()), lps(&[b'x'; 130])],
        _ => {
            let mut high = vec![0; size];
            high[size - 1] = 0x80;
            let mut low = vec![0; size];
            low[0] = 1;
            vec![vec![0; size], vec![255; size], high, low]
        }
    }
}
fn mixed_inline(e: E, id: i32, k: i32) -> E {
    match k % 6 {
        0 => e.string(id, &v(k)),
        1 => e.int(k),
        2 => e.sys(id, &v(k), &["m"]).int(k),
        3 => e.null(),
        4 => e.typed(13, &raw(13)),
        _ => e.syst(id, "T", &["a", "b"], &[t_prim(8), t_obj()]).i32(k).null(),
    }
}

/// All scaled messages for a dense ladder of sizes.
pub fn scale(cx: &Cx) {
    let l = if cx.thorough { ladder(600, 1 << 17) } else { ladder(130, 4097) };
    let makers = makers();
    cx.par("valid messages of every size on a ladder", makers.len() * l.len(), |th, mut i| {
        let n = l[l.len() - 1 - pick(&mut i, l.len())];
        if let Some(b) = makers[i].at(n) {
            th.check(&b)
        }
    });
}

/// Those about a property: every size up to some hundreds, then around powers of two as far as reasonable.
pub fn sizes(cx: &Cx, id: &str) {
    let mut l = if cx.thorough { ladder(1100, HUGE_TOO) } else { ladder(520, 4097) };
    if cx.thorough {
        l.retain(|n| *n < (1 << 22) || *n > (1 << 24));
    } else {
        l.extend([32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    }
    let makers: Vec<Maker> = makers().into_iter().filter(|m| m.about.split(' ').any(|x| x == id)).collect();
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, m) in makers.iter().enumerate() {
        jobs.extend(l.iter().filter(|n| **n <= m.max).map(|n| (*n, i)));
    }
    jobs.sort();
    jobs.reverse();
    cx.par("every count up to hundreds, then around powers of two", jobs.len(), |th, i| {
        let (n, i) = jobs[i];
        // gigabytes each: one after another
        let _one = (n > 1 << 21).then(|| HUGE.lock().unwrap_or_else(|e| e.into_inner()));
        if _one.is_some() {
            crate::harness::MEM_CAP.store(8 << 30, std::sync::atomic::Ordering::Relaxed);
        }
        if let Some(b) = makers[i].at(n) {
            th.check(&b)
        }
    });
}
static HUGE: std::sync::Mutex<()> = std::sync::Mutex::new(());
const HUGE_TOO: usize = (1 << 24) + 1;
