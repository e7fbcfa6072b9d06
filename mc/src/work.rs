//! How much work a message takes: the processor time of the thread, in proportion to what the message has to tell.
//!
//! Every family of messages is measured on a ladder of sizes, each four times the one before. The time per byte and
//! element may not grow: work that is quadratic in any of the dimensions grows with the ladder, by a factor of
//! 16 per 2 steps, while caches and logarithms make for a factor of 3 altogether.
use crate::enc::*;
use crate::harness::{Cx, Th, supervised};
use crate::scaled::{self, Maker};
use crate::serdes::{Skip, Spy};
use nrbf::RemotingMessage;
use serde::Deserialize;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

unsafe extern "C" {
    fn clock_gettime(clock: i32, time: *mut i64) -> i32;
}
const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
fn now() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, t.as_mut_ptr()) };
    t[0] * 1_000_000_000 + t[1]
}

/// How many times the time per unit of the best smaller message is too much.
const FACTOR: f64 = 8.;
/// What takes less (in ns) is never too slow.
const FREE: f64 = 2e6;
/// A rate (in ns) that is never too slow to compare with: copying memory that is new to the process takes some ns per byte.
const FAST: f64 = 5.;

#[derive(Deserialize)]
#[allow(dead_code)]
struct Few {
    #[serde(default, rename = "m0")]
    a: Option<Skip>,
    #[serde(default, rename = "m17")]
    b: Option<Skip>,
}

/// What is done with a message. "cut" ones lack their last byte, "longer" ones have one more.
pub const OPS: [&str; 10] = ["parse", "parse cut", "parse longer", "discard", "every value", "list", "map", "hash map", "struct", "list cut"];
fn op(k: usize, b: &[u8]) {
    match k {
        0..=2 => drop(RemotingMessage::parse(b)),
        3 => drop(nrbf::from_slice::<Skip>(b)),
        4 => drop(nrbf::from_slice::<Spy>(b)),
        5 | 9 => drop(nrbf::from_slice::<Vec<Skip>>(b)),
        6 => drop(nrbf::from_slice::<BTreeMap<String, Skip>>(b)),
        7 => drop(nrbf::from_slice::<HashMap<&str, Skip>>(b)),
        _ => drop(nrbf::from_slice::<Few>(b)),
    }
}
fn variant(k: usize, mut b: Vec<u8>) -> Vec<u8> {
    if OPS[k].ends_with("cut") {
        b.pop();
    }
    if OPS[k].ends_with("longer") {
        b.push(0)
    }
    b
}
/// Nanoseconds of processor time of an operation on a message: the least of some.
fn cost(k: usize, b: &[u8], times: usize) -> f64 {
    let mut best = f64::MAX;
    let begin = now();
    for _ in 0..times {
        let (start, mut n) = (now(), 0);
        let t = loop {
            op(k, b);
            n += 1;
            let t = now() - start;
            if t > 200_000 {
                break t;
            }
        };
        best = best.min(t as f64 / f64::from(n));
        if now() - begin > 2_000_000_000 {
            break;
        }
    }
    best
}

/// Families only this is about, next to those of `scaled`.
fn more() -> Vec<Maker> {
    let mut l = vec![];
    let mut add = |make: Box<dyn Fn(i32) -> Option<E> + Sync>| l.push(Maker::new("C26", 1 << 21, make));
    let list = |class: &str, n: i32, size: i32| E::msg(1).syst(1, class, &["_items", "_size", "_version"], &[t_objarr(), t_prim(8), t_prim(8)]).r(2).i32(size).i32(0).arr_obj(2, n);
    let many = |n: i32, e: E, f: &dyn Fn(E, i32) -> E| (0..n).fold(e, f);
    // lists, full and partly filled
    add(Box::new(move |n| Some(many(n, list("System.Collections.Generic.List`1[[System.Object]]", n, n), &|e, i| e.int(i)))));
    add(Box::new(move |n| Some(list("System.Collections.Generic.List`1[[System.Object]]", n, 1).int(1).nulls(n - 1))));
    add(Box::new(move |n| Some(many(n, list("System.Collections.Generic.List`1[[System.Object]]", n, n / 2), &|e, i| e.int(i)))));
    add(Box::new(move |n| Some(many(n, list("System.Collections.ArrayList", n, n), &|e, i| e.string(i + 3, &format!("v{i}"))))));
    // the same short names again and again
    add(Box::new(move |n| Some(many(n, E::msg(1).arr_obj(1, n), &|e, i| e.sys(i + 2, "System.Int32", &["m_value"]).int(i)))));
    add(Box::new(move |n| Some(many(n, E::msg(1).arr_obj(1, n), &|e, i| e.syst(i + 2, "System.DateTime", &["ticks", "dateData"], &[t_prim(9), t_prim(16)]).raw(&[1; 16])))));
    add(Box::new(move |n| Some(many(n, E::msg(1).arr_obj(1, n), &|e, i| e.typed(5, &lps(format!("{i}.5").as_bytes()))))));
    // names that share a long beginning
    add(Box::new(move |n| {
        let k = (f64::from(n) / 8.).sqrt() as i32 + 1;
        let l: Vec<String> = (0..k).map(|i| format!("{}{i}", "n".repeat(k as usize))).collect();
        let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        Some(many(k, E::msg(1).sys(1, "A", &l), &|e, i| e.int(i)))
    }));
    // long strings, of one and of several bytes per character
    for (s, parts) in [("a", 1), ("é", 1), ("𝄞", 1), ("ab", 3), ("é€", 3)] {
        add(Box::new(move |n| Some(many(parts, E::msg(1).arr_obj(1, parts), &|e, i| e.string(i + 2, &s.repeat(n as usize))))));
    }
    // wide objects in wide arrays in wide objects
    add(Box::new(move |n| {
        let k = f64::from(n).cbrt() as i32 + 1;
        let l: Vec<String> = (0..k).map(|i| format!("m{i}")).collect();
        let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        let inner = |e: E, a: i32| many(k, e.arr_obj(a * (k + 1) + 2, k), &|e, b| many(k, e.sys(a * (k + 1) + b + 3, "B", &l), &|e, c| e.int(c)));
        Some(many(k, E::msg(1).sys(1, "A", &l), &|e, a| e.r(a * (k + 1) + 2)).cat(&many(k, E::new(), &inner)))
    }));
    // all bytes of the records below 128, and none the code of another kind of record
    let id = |i: i32| 0x4040_4040 | i & 63 | (i >> 6 & 63) << 8 | (i >> 12 & 63) << 16;
    add(Box::new(move |n| Some(many(n, E::msg(1).string(1, "root"), &|e, i| e.string(id(i), "some text of some length, as is usual in texts")))));
    add(Box::new(move |n| Some(many(n, E::msg(1).arr_obj(1, n), &|e, i| e.string(id(i), "text")))));
    add(Box::new(move |n| Some(many(n, E::msg(1).arr_obj(1, n), &|e, i| e.sys(id(i), "Class", &["member"]).string(id(i + n), "text")))));
    add(Box::new(move |n| Some(many(n, E::msg(1).string(1, "root"), &|e, i| e.sys(id(i), "Class", &["member"]).null()))));
    // many classes or libraries, then as many uses, from the first, from the last and mixed
    for order in 0..3 {
        let k = move |i: i32, n: i32| match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i64::from(i) * 7 % i64::from(n)) as i32,
        };
        for typed in [false, true] {
            add(Box::new(move |n| {
                let h = n / 2;
                let e = many(h, E::msg(1).arr_obj(1, 2 * h), &|e, i| if typed { e.syst(i + 2, "A", &["x"], &[t_prim(2)]).u8(0) } else { e.sys(i + 2, "A", &["x"]).null() });
                Some(many(h, e, &|e, i| if typed { e.byid(h + i + 2, k(i, h) + 2).u8(0) } else { e.byid(h + i + 2, k(i, h) + 2).null() }))
            }));
            add(Box::new(move |n| {
                let h = n / 2;
                let class = |e: E, id: i32, lib: i32| if typed { e.clst(id, "A", &["x"], &[t_prim(2)], lib).u8(0) } else { e.cls(id, "A", &["x"], lib).null() };
                let e = many(h, E::msg(1).arr_obj(1, 2 * h), &|e, i| class(e.lib(i + 1, "L"), i + 2, i + 1));
                Some(many(h, e, &|e, i| class(e, h + i + 2, k(i, h) + 1)))
            }));
        }
        add(Box::new(move |n| {
            let h = n / 2;
            let e = many(h, E::msg(1).arr_obj(1, 2 * h), &|e, i| e.lib(i + 1, "L").cls(i + 2, "A", &[], i + 1));
            Some(many(h, e, &|e, i| e.clst(h + i + 2, "B", &["x"], &[t_cls("A", k(i, h) + 1)], k(i, h) + 1).null()))
        }));
    }
    // many members of one type
    for t in [t_prim(1), t_prim(2), t_prim(3), t_prim(5), t_prim(8), t_prim(13), t_prim(12), t_str(), t_obj(), t_sys("S"), t_cls("C", 1), t_objarr(), t_strarr(), t_primarr(8)] {
        for library in [false, true] {
            for alone in [false, true] {
                let t = t.clone();
                add(Box::new(move |n| {
                    let n = n / 4;
                    let l: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
                    let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
                    // of only this type, or one of another type first
                    let types: Vec<(u8, E)> = (0..n).map(|i| if i > 0 || alone { t.clone() } else { t_obj() }).collect();
                    let e = E::msg(1).lib(1, "L");
                    let e = if library { e.clst(1, "A", &l, &types, 1) } else { e.syst(1, "A", &l, &types) };
                    Some(many(n, e, &|e, i| if t.0 == 0 && (i > 0 || alone) { e.raw(&crate::corpus::raw(t_code(&t))) } else { e.null() }))
                }));
            }
        }
    }
    // references to references: half of the objects, each with one reference to one of the others, in and out of order
    for step in [1, 7] {
        add(Box::new(move |n| {
            let h = n / 2;
            let e = many(h, E::msg(1).arr_obj(1, h), &|e, i| e.r(i + 2));
            let e = many(h, e, &|e, i| e.sys(i + 2, "A", &["x"]).r(h + 2 + (i * step) % h));
            (h % 7 != 0).then(|| many(h, e, &|e, i| e.arr_prim(i + h + 2, 1, 2).u8(0)))
        }));
    }
    l
}

/// The code of the primitive type.
fn t_code(t: &(u8, E)) -> u8 {
    t.1.clone().end()[0]
}
fn families() -> Vec<Maker> {
    let mut l = scaled::makers();
    // a few of those are enough that differ in values only
    l.retain(|m| m.max != 2100);
    l.extend(more());
    l
}
fn ladder(m: &Maker, thorough: bool) -> Vec<usize> {
    let top = match m.max {
        n if n < 4_000 => n,
        n if n < 80_000 => 4 * n,
        _ if thorough => 1 << 21,
        _ => 1 << 17,
    };
    [256, 64, 16, 4, 1].iter().map(|k| top / k).filter(|n| *n >= 15).collect()
}
/// The time per byte and element, in ns.
fn rate(k: usize, n: usize, b: &[u8], times: usize) -> f64 {
    cost(k, b, times) / (b.len() + n) as f64
}
static ALONE: Mutex<()> = Mutex::new(());

/// What is wrong with this operation on this family, up to a size.
fn confirmed(m: &Maker, k: usize, small: usize, n: usize) -> Option<String> {
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    let (x, y) = (variant(k, m.any(small)?), variant(k, m.any(n)?));
    let (a, b) = (rate(k, small, &x, 9), rate(k, n, &y, 4));
    (b > a.max(FAST) * FACTOR && b * (y.len() + n) as f64 > FREE).then(|| {
        format!(
            "{}: {} bytes ({} elements) take {:.3} ms, {} bytes ({} elements) take {:.1} ms: {:.1} times as long for every byte and element",
            OPS[k],
            x.len(),
            small,
            a * (x.len() + small) as f64 / 1e6,
            y.len(),
            n,
            b * (y.len() + n) as f64 / 1e6,
            b / a
        )
    })
}
fn family(th: &mut Th<'_>, l: &[Maker], i: usize, sizes: &[usize]) {
    let mut best = [f64::MAX; OPS.len()];
    let mut at = [0; OPS.len()];
    let mut bad = [false; OPS.len()];
    for (s, n) in sizes.iter().enumerate() {
        let Some(b) = l[i].any(*n) else { continue };
        for k in 0..OPS.len() {
            if bad[k] || th.stopped() {
                continue;
            }
            let b = variant(k, b.clone());
            let (r, _) = supervised("work in proportion to the message", &b, || rate(k, *n, &b, if s < 2 { 3 } else { 1 }));
            let Ok(r) = r else {
                bad[k] = true;
                th.count("panicked (not this property)");
                continue;
            };
            th.measured((i as u64) << 32 | (s as u64) << 8 | k as u64);
            if std::env::var_os("MC_RATES").is_some() {
                eprintln!("W {:.2} {i} {} {} {n} {r:.2}", r / best[k].min(r), l[i].about, OPS[k].replace(' ', "_"));
            }
            if r > best[k].max(FAST) * FACTOR && r * (b.len() + n) as f64 > FREE {
                bad[k] = true;
                if let Some(d) = confirmed(&l[i], k, at[k], *n) {
                    th.violation(format!("work:{i}:{k}:{}:{n}", at[k]), &l[i].any(at[k]).unwrap(), d)
                }
            }
            if r < best[k] {
                (best[k], at[k]) = (r, *n)
            }
        }
    }
}
pub fn work(cx: &Cx) {
    let l = families();
    cx.par("work in proportion to the message", l.len(), |th, i| {
        let i = l.len() - 1 - i;
        family(th, &l, i, &ladder(&l[i], cx.thorough))
    });
}
pub fn replay(kind: &str) -> Option<String> {
    let x: Vec<usize> = kind.split(':').skip(1).filter_map(|x| x.parse().ok()).collect();
    let l = families();
    confirmed(l.get(x[0])?, x[1], x[2], x[3])
}
