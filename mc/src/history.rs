//! C22: the result of a parse under every history of other parses, placement and interleaving.
//!
//! The reference of every comparison is what the operation yields as the only thing a fresh process does.
use crate::corpus;
use crate::enc::*;
use crate::harness::{Cx, Th, supervised};
use crate::model::{self, Verdict};
use crate::rv;
use crate::serdes::{S2, Spy};
use crate::steps;
use crate::suites::{ladder, pick};
use nrbf::RemotingMessage;
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Condvar, Mutex};

pub struct Msg {
    pub name: String,
    pub b: Vec<u8>,
    /// Which of several errors is reported may depend on the order in which a map is visited.
    pub loose: bool,
}

/// Valid messages, and for every reason to reject a message some that are rejected for it.
pub fn messages() -> Vec<Msg> {
    let mut v = vec![];
    let seeds = corpus::seeds();
    for s in &seeds {
        v.push(Msg { name: s.name.into(), b: s.b.clone(), loose: false });
    }
    // messages that only make sense with what an earlier message may have left behind
    let m = || E::msg(1);
    let stale: Vec<(&str, E)> = vec![
        ("class of another message", m().byid(1, 2).int(1)),
        ("class 1 of another message", E::msg(2).byid(2, 1).int(1)),
        ("library of another message", m().cls(1, "A", &["x"], 1).int(1)),
        ("library 2 of another message", m().cls(1, "A", &["x"], 2).int(1)),
        ("string of another message", m().arr_obj(1, 1).r(2)),
        ("root of another message", m().string(2, "a")),
        ("root 9 of another message", E::msg(9).string(2, "a")),
        ("class bound to a library of another message", m().bin_arr(1, 0, &[1], &[], &t_cls("A", 1)).null()),
        ("array of a call without it", m().call(0x14, "M", "T")),
        ("object 3 of another message", m().arr_obj(1, 1).r(3)),
    ];
    for (n, e) in stale {
        v.push(Msg { name: n.into(), b: e.end(), loose: false });
    }
    // values whose every byte counts
    for t in corpus::PRIMS {
        let l = crate::scaled::others(t);
        let mut e = m().arr_prim(1, 2 * l.len() as i32 + 1, t);
        for x in l.iter().chain(&l) {
            e = e.raw(x)
        }
        v.push(Msg { name: format!("values of type {t}"), b: e.raw(&corpus::raw(t)).end(), loose: false });
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut reject = |name: String, b: Vec<u8>, v: &mut Vec<Msg>| {
        let (why, limit) = match model::run(&b) {
            Verdict::Reject(why) => (why.to_string(), 1),
            Verdict::Incomplete { exp, .. } => (format!("incomplete {exp:?}").split('(').next().unwrap().to_string(), 1),
            _ => return,
        };
        let n = seen.entry(why.clone()).or_default();
        if *n < limit {
            *n += 1;
            let loose = why.contains("cyclic") || why.contains("sharing") || why.contains("undefined reference");
            v.push(Msg { name: format!("{name}: {why}"), b, loose });
        }
    };
    for s in seeds.iter().rev() {
        for k in 0..s.b.len() {
            reject(format!("{} cut off", s.name), s.b[..k].to_vec(), &mut v);
        }
    }
    for s in &seeds {
        for k in 0..s.b.len().min(90) {
            for x in [0u8, 1, 2, 3, 7, 8, 10, 11, 12, 0x18, 17, 0x80, 255] {
                let mut b = s.b.clone();
                b[k] = x;
                reject(format!("{} with another byte", s.name), b, &mut v);
            }
        }
    }
    for (n, b) in [
        ("cycle", m().arr_obj(1, 1).r(1).end()),
        ("cycle of two", m().arr_obj(1, 1).r(2).sys(2, "A", &["x"]).r(1).end()),
        ("shared", m().arr_obj(1, 2).r(2).r(2).sys(2, "A", &[]).end()),
    ] {
        v.push(Msg { name: n.into(), b, loose: true });
    }
    v
}

/// Messages with state worth leaking.
fn stateful(l: &[Msg]) -> Vec<usize> {
    let want = [
        "string", "obj array runs", "jagged", "rect", "class", "class typed", "by id", "by id nested", "two classes by id", "shared string", "libs", "root behind others",
        "call array", "ret args in array and value", "call inline", "list", "typed prims", "class of another message", "class 1 of another message",
        "library of another message", "library 2 of another message", "string of another message", "root of another message", "array of a call without it",
    ];
    let mut v: Vec<usize> = want.iter().map(|w| l.iter().position(|m| m.name == *w).unwrap()).collect();
    for part in ["duplicate object id", "null run exceeds", "undefined reference", "trailing data", "incomplete", "string is not UTF-8", "consecutive", "cycle"] {
        if let Some(i) = l.iter().position(|m| m.name.contains(part)) {
            v.push(i)
        }
    }
    v
}

pub const OPS: [&str; 8] = [
    "parse, dropped", "parse, kept", "from_slice to anything", "from_slice to a struct", "parse in a re-used buffer",
    "from_slice in a re-used buffer", "parsed, then deserialised", "from_slice that parses in the middle",
];

fn sorted(s: Spy) -> Spy {
    match s {
        Spy::Map(mut m) => {
            m.sort_by(|a, b| a.0.cmp(&b.0));
            Spy::Map(m.into_iter().map(|(k, v)| (k, sorted(v))).collect())
        }
        Spy::Seq(v) => Spy::Seq(v.into_iter().map(sorted).collect()),
        s => s,
    }
}
pub fn fold(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}
/// The whole result, as a text.
pub fn shown(r: &Result<RemotingMessage<'_>, nrbf::Error<'_>>, loose: bool) -> String {
    match r {
        Ok(m) => rv::canon_msg(m),
        Err(_) if loose => "error".into(),
        Err(e) => format!("error: {e} {:x}", fold(&format!("{e:?}"))),
    }
}
type Two = S2<Spy, Option<i64>>;
pub fn spy(r: Result<Spy, impl std::fmt::Display>) -> String {
    match r {
        Ok(s) => format!("{:?}", sorted(s)),
        Err(_) => "error".into(),
    }
}

thread_local! {
    static BUFFER: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static INNER: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// Parses and deserialises another message while it is being deserialised itself.
struct Reentrant(Spy);
impl<'de> Deserialize<'de> for Reentrant {
    fn deserialize<D: serde::de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let other = INNER.with(|i| i.borrow().clone());
        if let Some(b) = &other {
            let _ = RemotingMessage::parse(b);
            let _ = nrbf::from_slice::<Spy>(b);
        }
        let s = Spy::deserialize(d)?;
        if let Some(b) = &other {
            let _ = RemotingMessage::parse(b);
        }
        Ok(Reentrant(s))
    }
}

/// One operation on a message; kept results outlive it.
fn step<'a>(op: usize, m: &'a Msg, keep: &mut Vec<Result<RemotingMessage<'a>, nrbf::Error<'a>>>) -> String {
    let in_buffer = |f: &mut dyn FnMut(&[u8]) -> String| {
        BUFFER.with(|b| {
            let mut b = b.borrow_mut();
            b.clear();
            b.reserve(1 << 16);
            b.extend_from_slice(&m.b);
            f(&b)
        })
    };
    match op {
        0 => shown(&RemotingMessage::parse(&m.b), m.loose),
        1 => {
            let r = RemotingMessage::parse(&m.b);
            let s = shown(&r, m.loose);
            keep.push(r);
            s
        }
        2 => spy(nrbf::from_slice::<Spy>(&m.b)),
        3 => match nrbf::from_slice::<Two>(&m.b) {
            Ok(x) => format!("{:?} {:?}", sorted(x.x), x.y),
            Err(_) => "error".into(),
        },
        4 => in_buffer(&mut |b| shown(&RemotingMessage::parse(b), m.loose)),
        5 => in_buffer(&mut |b| spy(nrbf::from_slice::<Spy>(b))),
        6 => match RemotingMessage::parse(&m.b) {
            Ok(x) => spy(Spy::deserialize(x)),
            Err(_) => "error".into(),
        },
        _ => spy(nrbf::from_slice::<Vec<Reentrant>>(&m.b).map(|v| Spy::Seq(v.into_iter().map(|r| r.0).collect()))),
    }
}

/// What each operation yields as the only one of a process.
pub fn fresh(l: &[Msg], threads: usize) -> Vec<[u64; 8]> {
    fresh_of(l, &[0, 1, 2, 3, 4, 5, 6, 7], threads)
}
fn fresh_of(l: &[Msg], ops: &[usize], threads: usize) -> Vec<[u64; 8]> {
    let exe = std::env::current_exe().unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = Mutex::new(vec![[0u64; 8]; l.len()]);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= l.len() * ops.len() {
                        return;
                    }
                    let (i, op) = (k / ops.len(), ops[k % ops.len()]);
                    let o = std::process::Command::new(&exe).args(["fresh", &crate::harness::hex_str(&l[i].b), &op.to_string(), if l[i].loose { "loose" } else { "exact" }]).output().unwrap();
                    let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
                    let h = match u64::from_str_radix(&text, 16) {
                        Ok(h) => h,
                        // a crash of the very first call is nothing that a history causes
                        Err(_) => 0,
                    };
                    out.lock().unwrap()[i][op] = h;
                }
            });
        }
    });
    out.into_inner().unwrap()
}
/// The subprocess behind `fresh`.
pub fn fresh_one(hex: &str, op: usize, loose: bool) {
    let m = Msg { name: String::new(), b: crate::harness::unhex(hex), loose };
    println!("{:x}", fold(&step(op, &m, &mut vec![])) | 1);
}

struct Hist<'a> {
    l: &'a [Msg],
    fresh: &'a [[u64; 8]],
    log: Vec<u16>,
    keep: Vec<Result<RemotingMessage<'a>, nrbf::Error<'a>>>,
}
const CLEAR: u16 = u16::MAX;
impl<'a> Hist<'a> {
    fn new(l: &'a [Msg], fresh: &'a [[u64; 8]]) -> Self {
        Hist { l, fresh, log: vec![], keep: vec![] }
    }
    fn op(&mut self, th: &mut Th<'_>, i: usize, op: usize) {
        self.log.push((i * OPS.len() + op) as u16);
        let m = &self.l[i];
        let keep = &mut self.keep;
        let (r, _) = supervised(th.suite, &m.b, || step(op, m, keep));
        th.st.nodes += 1;
        th.st.transitions += 1;
        let ok = match &r {
            Ok(s) => self.fresh[i][op] == 0 || fold(s) | 1 == self.fresh[i][op],
            Err(_) => self.fresh[i][op] == 0,
        };
        th.count(if ok { "same as in a fresh process" } else { "differs" });
        if !ok {
            let bytes: Vec<u8> = self.log.iter().flat_map(|x| x.to_le_bytes()).collect();
            th.violation(
                "history".into(),
                &bytes,
                format!("'{}' ({}) yields {:.300?} after {} earlier operations, but something else in a fresh process", m.name, OPS[op], r, self.log.len() - 1),
            );
        }
    }
    fn clear(&mut self) {
        self.keep.clear();
        self.log.push(CLEAR);
    }
}

/// Replays a history; returns the last disagreement.
pub fn replay(bytes: &[u8]) -> Option<String> {
    let l = messages();
    let fresh = fresh(&l, 8);
    let mut h: Vec<_> = vec![];
    let mut last = None;
    for c in bytes.chunks(2) {
        let x = u16::from_le_bytes([c[0], c[1]]);
        if x == CLEAR {
            h.clear();
            continue;
        }
        let (i, op) = (x as usize / OPS.len(), x as usize % OPS.len());
        let s = step(op, &l[i], &mut h);
        if fold(&s) | 1 != fresh[i][op] {
            last = Some(format!("'{}' ({}): {s}", l[i].name, OPS[op]))
        }
    }
    last
}

/// Families of messages which have something in common that a reader could take for their identity: a class, library,
/// method or string of the same name, the same ids, the same length, the same beginning. Within a family, they differ.
fn families(thorough: bool) -> Vec<Vec<Vec<u8>>> {
    let mut f: Vec<Vec<Vec<u8>>> = vec![];
    let m = || E::msg(1);
    let n = || E::msg(0);
    for w in crate::suites::words() {
        let w = w.as_str();
        f.push(
            [
                m().sys(1, w, &[]),
                m().sys(1, w, &["a"]).int(1),
                m().sys(1, w, &["a"]).string(2, "t"),
                m().sys(1, w, &["b"]).int(1),
                m().sys(1, w, &["a", "b"]).int(1).int(2),
                m().sys(1, w, &["b", "a"]).int(1).int(2),
                m().syst(1, w, &["a"], &[t_prim(8)]).i32(1),
                m().syst(1, w, &["a"], &[t_prim(11)]).i32(1),
                m().syst(1, w, &["a", "b"], &[t_prim(2), t_prim(1)]).u8(1).u8(1),
                m().syst(1, w, &["a"], &[t_str()]).null(),
                m().lib(2, "L").cls(1, w, &["a"], 2).int(1),
                m().lib(2, "M").cls(1, w, &["a"], 2).int(1),
                m().lib(3, "L").clst(1, w, &["a"], &[t_prim(8)], 3).i32(1),
                m().arr_obj(1, 2).sys(2, w, &["a"]).int(1).byid(3, 2).int(2),
                m().arr_obj(1, 2).sys(2, w, &["a", "b"]).int(1).null().byid(3, 2).int(2).null(),
                m().byid(1, 2).int(1),
                m().syst(1, "Z", &["a"], &[t_sys(w)]).sys(2, w, &[]),
                m().syst(1, "Z", &["a"], &[t_sys(w)]).lib(2, "L").cls(2, w, &[], 2),
                m().lib(2, "L").clst(1, "Z", &["a"], &[t_cls(w, 2)], 2).cls(2, w, &[], 2),
                m().lib(2, "L").clst(1, "Z", &["a"], &[t_cls(w, 2)], 2).sys(2, w, &[]),
            ]
            .into_iter()
            .map(E::end)
            .collect(),
        );
        f.push(
            [
                m().lib(1, w).cls(1, "A", &[], 1),
                m().lib(2, w).cls(1, "A", &[], 2),
                m().lib(1, w).cls(1, "B", &["x"], 1).null(),
                m().lib(1, "L").cls(1, "A", &[], 1),
                m().lib(1, w).cls(1, "A", &[], 2),
                m().arr_obj(1, 2).lib(1, w).cls(2, "A", &[], 1).lib(2, "L").cls(3, "A", &[], 2),
                m().arr_obj(1, 2).lib(1, "L").cls(2, "A", &[], 1).lib(2, w).cls(3, "A", &[], 2),
                m().cls(1, "A", &[], 1),
            ]
            .into_iter()
            .map(E::end)
            .collect(),
        );
        f.push(
            [
                m().string(1, w),
                E::msg(2).string(2, w),
                m().string(1, "other"),
                m().arr_str(1, 2).string(2, w).r(2),
                m().arr_str(1, 1).r(2),
                m().arr_obj(1, 2).string(2, w).string(3, w),
                m().arr_obj(1, 2).string(2, w).string(2, w),
                m().sys(1, w, &[w]).string(2, w),
                m().sys(1, "A", &[w]).int(5),
                m().arr_prim(1, 1, 5).raw(&lps(w.as_bytes())),
                n().ret(0x811).sc(w),
            ]
            .into_iter()
            .map(E::end)
            .collect(),
        );
        f.push(
            [
                n().call(0x11, w, "T"),
                n().call(0x11, "M", w),
                n().call(0x11, w, w),
                n().call(0x11, w, "U"),
                n().call(0x12, w, "T").i32(0),
                n().call(0x12, w, "T").i32(1).u8(2).u8(7),
                n().call(0x12, w, "T").i32(1).u8(2).u8(8),
                n().call(0x12, w, "T").i32(2).u8(2).u8(7).u8(17),
                n().call(0x21, w, "T").sc("c"),
                n().call(0x21, w, "T").sc(w),
                m().call(0x14, w, "T").arr_obj(1, 1).int(7),
                m().call(0x14, w, "T").arr_obj(1, 2).int(7).int(8),
                m().call(0x18, w, "T").arr_obj(1, 1).r(2).arr_obj(2, 1).int(9),
                n().call(0x13, w, "T").i32(0),
                n().ret(0x21).sc(w),
            ]
            .into_iter()
            .map(E::end)
            .collect(),
        );
    }
    // the same ids
    for id in [1, 2, 3, 127, 128, 255, 256, 65535, 65536, i32::MAX] {
        let m = || E::msg(id);
        let other = if id == 7 { 8 } else { 7 };
        f.push(
            [
                m().string(id, "a"),
                m().string(id, "b"),
                m().arr_obj(id, 0),
                m().arr_obj(id, 2).null().int(1),
                m().arr_prim(id, 2, 2).u8(1).u8(2),
                m().arr_prim(id, 2, 10).u8(1).u8(2),
                m().arr_prim(id, 1, 7).u8(1).u8(2),
                m().arr_str(id, 1).null(),
                m().bin_arr(id, 2, &[1, 2], &[], &t_prim(2)).u8(1).u8(2),
                m().bin_arr(id, 2, &[2, 1], &[], &t_prim(2)).u8(1).u8(2),
                m().bin_arr(id, 0, &[2], &[], &t_prim(2)).u8(1).u8(2),
                m().sys(id, "A", &["x"]).int(1),
                m().sys(id, "A", &["y"]).int(1),
                m().sys(id, "B", &["x", "y"]).int(1).int(1),
                m().syst(id, "A", &["x"], &[t_prim(8)]).i32(1),
                m().lib(id, "L").cls(id, "A", &["x"], id).int(1),
                m().lib(id, "M").cls(id, "A", &["x"], id).int(1),
                m().arr_obj(id, 1).r(other).string(other, "late"),
                m().arr_obj(id, 1).r(other),
                m().arr_obj(other, 2).sys(id, "A", &["x"]).int(1).byid(9999, id).int(2),
                E::msg(other).arr_obj(other, 2).sys(id, "B", &["x", "y"]).int(1).int(1).byid(9999, id).int(2).int(3),
                E::msg(other).arr_obj(other, 1).byid(9999, id).int(2),
                E::msg(other).string(id, "a"),
                m().call(0x14, "M", "T").arr_obj(id, 1).int(7),
                m().call(0x14, "M", "T").arr_obj(id, 1).null(),
                m().call(0x14, "M", "T").arr_obj(other, 1).null(),
            ]
            .into_iter()
            .map(E::end)
            .collect(),
        );
    }
    // the same bytes of another type, and values of the same length
    let mut p = vec![];
    for t in corpus::PRIMS {
        let mut k = 0;
        for b in crate::suites::prim_patterns(t, false) {
            if b.len() == 8 || t == 5 && b.len() == 4 || t == 3 || t == 1 {
                p.push(m().arr_prim(1, 1, t).raw(&b).end());
                k += 1;
                if k > 6 {
                    break;
                }
            }
        }
    }
    for s in ["1.5", "1.6", "1.50", "2.5", "15.", "-15", "1,5", "150", "0.0", "000"] {
        p.push(m().arr_prim(1, 1, 5).raw(&lps(s.as_bytes())).end());
        p.push(m().arr_obj(1, 1).typed(5, &lps(s.as_bytes())).end());
        p.push(m().string(1, s).end());
    }
    for s in ["a", "b", "ß", "é", "€", "₭", "𝄞", "𝄡"] {
        p.push(m().arr_prim(1, 1, 3).raw(s.as_bytes()).end());
    }
    f.push(p);
    // one byte changed, the length the same
    for s in corpus::seeds() {
        let mut v = vec![s.b.clone()];
        for k in 1..s.b.len() {
            for x in if thorough { vec![1u8, 2, 3, 5, 17, 64, 128, 255] } else { vec![1, 3] } {
                let mut b = s.b.clone();
                b[k] ^= x;
                v.push(b)
            }
        }
        f.push(v);
    }
    f
}

/// Every ordered pair of a family: one, the other, and the one again.
fn twins(cx: &Cx) {
    const OPS: [usize; 4] = [0, 2, 4, 5];
    let f = families(cx.thorough);
    let l: Vec<Msg> = f
        .iter()
        .flatten()
        .map(|b| Msg { name: String::new(), b: b.clone(), loose: matches!(model::run(b), Verdict::Reject(w) if w.contains("cyclic") || w.contains("sharing") || w.contains("undefined reference")) })
        .collect();
    let fresh = fresh_of(&l, &[0, 2], cx.threads);
    let mut start = 0;
    let mut jobs = vec![];
    for v in &f {
        let large = v.len() > 40;
        for a in 0..v.len() {
            // of the messages with a changed byte, the original is one of every pair
            jobs.push((start + a, start..start + if large && a > 0 { 1 } else { v.len() }));
        }
        start += v.len();
    }
    cx.par("histories: messages that have something in common", jobs.len(), |th, k| {
        let (a, others) = (jobs[k].0, jobs[k].1.clone());
        for b in others.filter(|b| *b != a) {
            for x in OPS {
                for y in OPS {
                    for (i, op) in [(a, x), (b, y), (a, x)] {
                        let m = &l[i];
                        let (r, _) = supervised(th.suite, &m.b, || step(op, m, &mut vec![]));
                        th.st.nodes += 1;
                        th.st.transitions += 1;
                        let want = fresh[i][if matches!(op, 2 | 5) { 2 } else { 0 }];
                        let ok = match &r {
                            Ok(s) => want == 0 || fold(s) | 1 == want,
                            Err(_) => want == 0,
                        };
                        th.count(if ok { "same as in a fresh process" } else { "differs" });
                        if !ok {
                            let mut bytes = vec![];
                            for (m, op) in [(&l[a].b, x), (&l[b].b, y), (&l[a].b, x)] {
                                bytes.push(op as u8);
                                bytes.extend((m.len() as u32).to_le_bytes());
                                bytes.extend(m);
                            }
                            th.violation("sequence".into(), &bytes, format!("{:?} {} yields {r:.300?} after {:?} {}, but something else in a fresh process", self::OPS[op], crate::harness::hex_str(&m.b), self::OPS[x], crate::harness::hex_str(&l[if i == a { b } else { a }].b)));
                            return;
                        }
                    }
                }
            }
        }
    });
}

/// Replays a violation of the kind "sequence".
pub fn replay_sequence(mut b: &[u8]) -> Option<String> {
    let mut last = None;
    while b.len() >= 5 {
        let (op, n) = (b[0] as usize, u32::from_le_bytes([b[1], b[2], b[3], b[4]]) as usize);
        let m = Msg { name: String::new(), b: b[5..5 + n].to_vec(), loose: true };
        b = &b[5 + n..];
        let got = step(op, &m, &mut vec![]);
        let one = std::slice::from_ref(&m);
        if fold(&got) | 1 != fresh_of(one, &[op], 1)[0][op] {
            last = Some(format!("{} {}: {got}", OPS[op], crate::harness::hex_str(&m.b)));
        }
    }
    last
}

/// Replays the other kinds of violations: the whole enumeration they come from.
pub fn replay_kind(kind: &str, b: &[u8]) -> Option<String> {
    if let Some(n) = kind.strip_prefix("repeat:") {
        let (how, n) = n.split_once(':')?;
        return repeat_in_process(b, how == "loose", n.parse().ok()?);
    }
    if let Some(x) = kind.strip_prefix("preempt:") {
        let x: Vec<&str> = x.split(':').collect();
        let (la, lb) = x[1].split_once('/')?;
        let msg = |b: Vec<u8>, l: &str| Msg { name: String::new(), b, loose: l == "loose" };
        let (a, b, op) = (msg(b.to_vec(), la), msg(crate::harness::unhex(x[0]), lb), x[2].parse().ok()?);
        let want = [fresh_of(std::slice::from_ref(&a), &[op], 1)[0][op], fresh_of(std::slice::from_ref(&b), &[op], 1)[0][op]];
        return match steps::schedule(&a, &b, op, steps::point(x[3])?, steps::point(x[4])) {
            Some((h, _)) if h == want => None,
            r => Some(format!("{:?}", r.map(|r| r.1))),
        };
    }
    let l = messages();
    let fresh = fresh(&l, 8);
    let cx = Cx::new("C22", false, 1, 8);
    match kind.split(':').next().unwrap() {
        "placement" => {
            let k = l.iter().position(|m| m.b == b)?;
            placements(&cx, &l[k..=k], &fresh[k..=k])
        }
        "address" => {
            let k = l.iter().position(|m| m.b == b)?;
            addresses(&cx, &l[k..=k], &fresh[k..=k])
        }
        "world" => {
            let m = Msg { name: String::new(), b: b.to_vec(), loose: kind.ends_with("loose") };
            worlds(&cx, &[m])
        }
        "handoff" => handoffs(&cx, &l, &fresh),
        _ => interleavings(&cx, &l, &fresh),
    }
    cx.viols.lock().unwrap().first().map(|v| v.detail.clone())
}

pub fn histories(cx: &Cx) {
    let l = &messages();
    let fresh = &fresh(l, cx.threads);
    let n = l.len();
    // every ordered pair of messages, every pair of operations
    cx.par("histories: pairs of operations", n * n, |th, mut k| {
        let (a, b) = (pick(&mut k, n), k);
        let mut h = Hist::new(l, fresh);
        for x in 0..OPS.len() {
            for y in 0..OPS.len() {
                INNER.with(|i| *i.borrow_mut() = Some(l[a].b.clone()));
                h.op(th, a, x);
                h.op(th, b, y);
                h.clear();
            }
        }
    });
    // longer histories over the messages that have state
    let some = stateful(l);
    let m = some.len();
    let ops: &[usize] = if cx.thorough { &[0, 1, 2, 4] } else { &[0, 1, 4] };
    cx.par("histories: triples of operations", m * m * m, |th, mut k| {
        let x = [pick(&mut k, m), pick(&mut k, m), pick(&mut k, m)].map(|i| some[i]);
        let mut h = Hist::new(l, fresh);
        for mut o in 0..ops.len().pow(3) {
            for i in x {
                let op = ops[pick(&mut o, ops.len())];
                h.op(th, i, op);
            }
            h.clear();
        }
    });
    if cx.thorough {
        cx.par("histories: triples of messages", n * n, |th, mut k| {
            let (a, b) = (pick(&mut k, n), k);
            let mut h = Hist::new(l, fresh);
            for c in 0..n {
                h.op(th, a, 0);
                h.op(th, b, 0);
                h.op(th, c, 0);
                h.clear();
            }
        });
        cx.par("histories: quadruples of operations", m.pow(4), |th, mut k| {
            let mut h = Hist::new(l, fresh);
            for _ in 0..4 {
                let i = some[pick(&mut k, m)];
                h.op(th, i, [0, 4][k % 2]);
            }
        });
    }
    // many times the same, then another
    let counts = if cx.thorough { ladder(40, 70_000) } else { vec![1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1025] };
    let longest = *counts.last().unwrap();
    cx.par("histories: repetitions", n * 3, |th, mut k| {
        let op = [0, 2, 4][pick(&mut k, 3)];
        let mut h = Hist::new(l, fresh);
        for _ in 0..longest.min(if l[k].b.len() > 200 { 5000 } else { longest }) {
            h.op(th, k, op);
        }
    });
    cx.par("histories: another message after repetitions", m * m, |th, mut k| {
        let (a, b) = (some[pick(&mut k, m)], some[k]);
        let mut h = Hist::new(l, fresh);
        for c in counts.iter().filter(|c| **c <= if th.cx.thorough { 5000 } else { 300 }) {
            for _ in 0..*c {
                h.op(th, a, 0);
            }
            h.op(th, b, 0);
        }
    });
    // many results alive at once
    cx.par("histories: many results alive", 8, |th, k| {
        let mut h = Hist::new(l, fresh);
        for r in 0..if th.cx.thorough { 300 } else { 30 } {
            for i in 0..n {
                h.op(th, (i * (2 * k + 1) + r) % n, 1);
            }
        }
        h.clear();
        for i in 0..n {
            h.op(th, i, 0);
        }
    });
    twins(cx);
    long_repetitions(cx, l);
    placements(cx, l, fresh);
    addresses(cx, l, fresh);
    worlds(cx, l);
    handoffs(cx, l, fresh);
    interleavings(cx, l, fresh);
    observed(cx, l, fresh);
}

/// Parses under single step. See `steps`.
fn observed(cx: &Cx, l: &[Msg], fresh: &[[u64; 8]]) {
    const OPS: [usize; 2] = [0, 2];
    let limit = if cx.thorough { 4000 } else { 400 };
    let mut all: Vec<(&Msg, usize, [u64; 8])> = vec![];
    for (m, f) in l.iter().zip(fresh).filter(|(m, _)| m.b.len() <= limit) {
        for op in OPS {
            all.push((m, op, *f));
        }
    }
    let large = if cx.thorough { large_messages() } else { vec![] };
    let large_fresh = fresh_of(&large, &[0], cx.threads);
    all.extend(large.iter().zip(&large_fresh).map(|(m, f)| (m, 0, *f)));
    let traces: Vec<Mutex<Option<steps::Trace>>> = all.iter().map(|_| Mutex::new(None)).collect();
    cx.par("single steps: writes to shared memory", all.len(), |th, k| {
        let (m, op, _) = all[k];
        th.st.nodes += 1;
        match steps::trace(&m.b, op) {
            // whether it is a history that makes a parse crash is for the other suites
            None => th.count("crashes"),
            Some(t) => {
                th.st.transitions += t.instructions;
                th.count(if t.count == 0 { "no write at any instruction: all schedules are one" } else { "writes: schedules explored" });
                *traces[k].lock().unwrap() = Some(t);
            }
        }
    });
    let (ends, near) = if cx.thorough { (8, 12) } else { (3, 3) };
    let points: Vec<Vec<steps::Point>> = traces.iter().map(|t| t.lock().unwrap().as_ref().map_or(vec![], |t| steps::points(t, ends, near))).collect();
    let mut some: Vec<usize> = (0..all.len()).filter(|k| !points[*k].is_empty()).collect();
    some.sort_by_key(|k| traces[*k].lock().unwrap().as_ref().map(|t| t.instructions));
    let inner = |k: usize| points[k].iter().step_by(if cx.thorough { 1 } else { points[k].len().div_ceil(2) });
    for op in OPS {
        let those: Vec<usize> = some.iter().copied().filter(|k| all[*k].1 == op).collect();
        // as many of the shorter half as the number of schedules allows
        let those = &those[..those.len().div_ceil(2)];
        let mut some: Vec<usize> = vec![];
        for n in 1..=those.len() {
            let v: Vec<usize> = (0..n).map(|k| those[k * those.len() / n]).collect();
            let schedules = v.iter().map(|k| points[*k].len()).sum::<usize>() * v.iter().map(|k| 1 + inner(*k).count()).sum::<usize>();
            if n > 1 && schedules > if cx.thorough { 20_000 } else { 2000 } {
                break;
            }
            some = v;
        }
        let n = some.len();
        cx.par(if op == 0 { "single steps: preemptions of a parse" } else { "single steps: preemptions of deserialising" }, n * n, |th, mut k| {
            let (a, b) = (some[pick(&mut k, n)], some[k]);
            for pa in &points[a] {
                for pb in std::iter::once(None).chain(inner(b).copied().map(Some)) {
                    if th.stopped() {
                        return;
                    }
                    th.st.nodes += 1;
                    th.st.transitions += 2;
                    let (ma, mb) = (all[a].0, all[b].0);
                    let r = steps::schedule(ma, mb, op, *pa, pb);
                    let want = [all[a].2[op], all[b].2[op]];
                    let ok = match &r {
                        Some((h, _)) => want[0] == 0 || want[1] == 0 || *h == want,
                        None => want.contains(&0),
                    };
                    th.count(if ok { "same as in a fresh process" } else { "differs" });
                    if !ok {
                        th.violation(format!("preempt:{}:{}:{op}:{}.{}:{}", crate::harness::hex_str(&mb.b), [ma, mb].map(|m| if m.loose { "loose" } else { "exact" }).join("/"), pa.writes, pa.since, pb.map_or("-".into(), |p| format!("{}.{}", p.writes, p.since))), &ma.b, format!("'{}' stopped after its write {} and {} instructions for '{}', stopped at {pb:?}: {:?}", ma.name, pa.writes, pa.since, mb.name, r.map(|r| r.1)));
                    }
                }
            }
        });
    }
}

/// Whether the error or value is the one that `first` is the text of.
fn same(r: &Result<RemotingMessage<'_>, nrbf::Error<'_>>, r0: &Result<RemotingMessage<'_>, nrbf::Error<'_>>, loose: bool) -> bool {
    match (r, r0) {
        (Ok(a), Ok(b)) if a == b => true,
        (Err(_), Err(_)) if loose => true,
        _ => shown(r, loose) == shown(r0, loose),
    }
}
/// A process of one thread which only parses the one message, again and again. Prints which parse differs from the first.
pub fn repeat(hex: &str, loose: bool, n: usize) {
    let b = crate::harness::unhex(hex);
    let first = RemotingMessage::parse(&b);
    for k in 2..=n {
        let r = RemotingMessage::parse(&b);
        if !same(&r, &first, loose) {
            println!("parse {k} yields {:.300}, the first {:.300}", shown(&r, loose), shown(&first, loose));
            return;
        }
    }
    println!("same")
}
fn repeat_in_process(b: &[u8], loose: bool, n: usize) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new(&exe).args(["repeat", &crate::harness::hex_str(b), if loose { "loose" } else { "exact" }, &n.to_string()]).output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
    match s.as_str() {
        "same" => None,
        // a panic: that of the first parse is nothing that a history causes
        "" if n > 2 => repeat_in_process(b, loose, 2).is_none().then(|| "one of the parses crashes".to_string()),
        "" => Some(String::new()),
        _ => Some(s),
    }
}
/// Counters that wrap: as many parses as a 16-bit (thorough: a 20-bit) counter takes, in a process of their own.
fn long_repetitions(cx: &Cx, l: &[Msg]) {
    let n = if cx.thorough { 1_100_000 } else { 66_000 };
    cx.par("histories: long repetitions", l.len(), |th, k| {
        let m = &l[k];
        // about as many microseconds as bytes
        let n = if th.cx.thorough { n } else { n.min(20_000_000 / m.b.len().max(1)) };
        th.st.nodes += n as u64;
        th.st.transitions += n as u64;
        match repeat_in_process(&m.b, m.loose, n) {
            None => th.count("same as the first parse"),
            Some(s) => {
                th.count("differs");
                th.violation(format!("repeat:{}:{n}", if m.loose { "loose" } else { "exact" }), &m.b, format!("'{}': {s}", m.name));
            }
        }
    });
}

/// Every alignment, every surrounding; at the end of accessible memory, too.
fn placements(cx: &Cx, l: &[Msg], fresh: &[[u64; 8]]) {
    let fills: Vec<Vec<u8>> = vec![vec![0], vec![0xff], vec![0x0b], vec![0x0c], vec![10], vec![13, 1], vec![0x80], vec![b'x'], vec![0xc3], vec![0xa9], vec![6, 1, 0, 0, 0, 1, b'x'], vec![]];
    cx.par("placements: alignment and surroundings", l.len() * 16, |th, mut k| {
        let at = pick(&mut k, 16);
        let m = &l[k];
        for (f, fill) in fills.iter().enumerate() {
            let around = |n: usize| -> Vec<u8> { if fill.is_empty() { m.b.iter().cycle().take(n).copied().collect() } else { fill.iter().cycle().take(n).copied().collect() } };
            let mut buf = around(64 + at);
            let start = buf.len();
            buf.extend_from_slice(&m.b);
            buf.extend_from_slice(&around(if fill.is_empty() { m.b.len() } else { 300 }));
            let b = &buf[start..start + m.b.len()];
            let (r, _) = supervised(th.suite, &m.b, || (shown(&RemotingMessage::parse(b), m.loose), spy(nrbf::from_slice::<Spy>(b))));
            th.st.nodes += 1;
            th.st.transitions += 2;
            let ok = match &r {
                Ok((p, s)) => (fresh[k][0] == 0 || fold(p) | 1 == fresh[k][0]) && (fresh[k][2] == 0 || fold(s) | 1 == fresh[k][2]),
                Err(_) => fresh[k][0] == 0 || fresh[k][2] == 0,
            };
            th.count(if ok { "same as in a fresh process" } else { "differs" });
            if !ok {
                th.violation(format!("placement:{at}:{f}"), &m.b, format!("'{}' at offset {at} among bytes {fill:?} yields {r:.300?}", m.name));
            }
        }
    });
    cx.par("placements: in front of inaccessible memory", l.len(), |th, k| {
        let m = &l[k];
        let page = Guarded::new(m.b.len());
        let b = page.put(&m.b);
        let (r, _) = supervised(th.suite, &m.b, || shown(&RemotingMessage::parse(b), m.loose));
        th.st.nodes += 1;
        th.st.transitions += 1;
        let ok = r.as_ref().is_ok_and(|p| fold(p) | 1 == fresh[k][0]) || fresh[k][0] == 0;
        th.count(if ok { "same as in a fresh process" } else { "differs" });
        if !ok {
            th.violation("placement:guard:0".into(), &m.b, format!("'{}' in front of inaccessible memory yields {r:.300?}", m.name));
        }
    });
}
/// Every message, and long ones of every kind, under every answer to what a parse may ask the system for.
fn worlds(cx: &Cx, l: &[Msg]) {
    let mut all: Vec<Msg> = l.iter().map(|m| Msg { name: m.name.clone(), b: m.b.clone(), loose: m.loose }).collect();
    if l.len() > 1 {
        let n = if cx.thorough { 20_000 } else { 3000 };
        for (i, m) in crate::scaled::makers().iter().enumerate() {
            if let Some(b) = m.at(n).or_else(|| m.at(n / 10)).or_else(|| m.at(9)) {
                let loose = !matches!(model::run(&b), Verdict::Accept { lenient: None, .. });
                all.push(Msg { name: format!("long message {i}"), b, loose })
            }
        }
    }
    let worlds = crate::world::worlds(cx.thorough);
    cx.par("answers of the system", all.len(), |th, k| {
        let m = &all[k];
        let mut want: Option<(String, String)> = None;
        for w in &worlds {
            // a thread of its own, as random numbers are asked for once in every thread
            let (r, asked) = std::thread::scope(|s| {
                s.spawn(|| {
                    crate::world::within(*w, || {
                        std::panic::catch_unwind(|| (shown(&RemotingMessage::parse(&m.b), m.loose), spy(nrbf::from_slice::<Spy>(&m.b)))).unwrap_or_else(|_| ("panic".into(), "panic".into()))
                    })
                })
                .join()
                .unwrap()
            });
            th.st.nodes += 1;
            th.st.transitions += 2;
            for a in ["an environment variable", "the time", "random numbers", "a file"] {
                if asked.contains(&a) {
                    th.count(match a {
                        "an environment variable" => "asked for an environment variable",
                        "the time" => "asked for the time",
                        "random numbers" => "asked for random numbers",
                        _ => "asked for a file",
                    })
                }
            }
            let want = want.get_or_insert_with(|| r.clone());
            th.count(if *want == r { "same under every answer" } else { "differs" });
            if *want != r {
                th.violation(if m.loose { "world:loose".into() } else { "world:strict".into() }, &m.b, format!("'{}' yields {r:.300?} under {w:?}, but {want:.300?} otherwise", m.name));
                break;
            }
        }
    });
}
/// Every message at every address modulo 64 KiB (thorough: 1 MiB).
fn addresses(cx: &Cx, l: &[Msg], fresh: &[[u64; 8]]) {
    let most: usize = if cx.thorough { 1 << 20 } else { 1 << 16 };
    let step = 1024;
    cx.par("placements: every address modulo 64 KiB", l.len() * (most / step), |th, mut k| {
        let from = pick(&mut k, most / step) * step;
        let m = &l[k];
        let mut arena = vec![0u8; 2 * most + m.b.len() + 64];
        let base = arena.as_ptr().align_offset(most);
        for at in from..from + step {
            arena[base + at..base + at + m.b.len()].copy_from_slice(&m.b);
            let b = &arena[base + at..base + at + m.b.len()];
            let (r, _) = supervised(th.suite, &m.b, || shown(&RemotingMessage::parse(b), m.loose));
            th.st.nodes += 1;
            th.st.transitions += 1;
            let ok = match &r {
                Ok(p) => fresh[k][0] == 0 || fold(p) | 1 == fresh[k][0],
                Err(_) => fresh[k][0] == 0,
            };
            th.count(if ok { "same as in a fresh process" } else { "differs" });
            if !ok {
                th.violation(format!("address:{at}"), &m.b, format!("'{}' at an address of {at} modulo {most} yields {r:.300?}", m.name));
                break;
            }
        }
    });
}
unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}
struct Guarded {
    p: *mut u8,
    len: usize,
}
impl Guarded {
    fn new(n: usize) -> Self {
        let len = n.div_ceil(4096) * 4096;
        let len = len.max(4096);
        unsafe {
            let p = mmap(std::ptr::null_mut(), len + 4096, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert_eq!(mprotect(p.add(len), 4096, 0), 0);
            Guarded { p, len }
        }
    }
    fn put(&self, b: &[u8]) -> &[u8] {
        unsafe {
            let at = self.p.add(self.len - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.p, self.len + 4096);
        }
    }
}

// ------------------------------------------------------------------ two threads, one running at a time

#[derive(Default)]
struct Baton {
    turn: Mutex<usize>,
    cv: Condvar,
}
impl Baton {
    /// Waits for this thread's turn. A thread that gets no answer for long goes on by itself, so that
    /// an implementation that locks cannot be mistaken for one that hangs.
    fn wait(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        while *t != me && *t != 9 {
            let (g, timeout) = self.cv.wait_timeout(t, std::time::Duration::from_millis(500)).unwrap();
            t = g;
            if timeout.timed_out() {
                return;
            }
        }
    }
    fn give(&self, to: usize) {
        let mut t = self.turn.lock().unwrap();
        if *t != 9 {
            *t = to;
        }
        self.cv.notify_all();
    }
    /// 0 or 1: this thread's turn. 9: nobody has to wait any more.
    fn set(&self, to: usize) {
        *self.turn.lock().unwrap() = to;
        self.cv.notify_all();
    }
}
thread_local! {
    static BATON: RefCell<Option<(std::sync::Arc<Baton>, usize)>> = const { RefCell::new(None) };
}
/// At an allocator call: the other thread's turn, then mine again.
fn preempt() {
    let b = BATON.with(|b| b.borrow().clone());
    if let Some((b, me)) = b {
        b.give(1 - me);
        b.wait(me);
    }
}

/// Pairs of operations on different threads, one after the other.
fn handoffs(cx: &Cx, l: &[Msg], fresh: &[[u64; 8]]) {
    let n = l.len();
    cx.par("histories: across threads", n, |th, a| {
        // the second thread lives as long as this row of pairs
        let (tx, rx) = std::sync::mpsc::channel::<(usize, usize)>();
        let (tx2, rx2) = std::sync::mpsc::channel::<Result<String, String>>();
        std::thread::scope(|s| {
            s.spawn(move || {
                while let Ok((i, op)) = rx.recv() {
                    let r = supervised("histories: across threads", &l[i].b, || step(op, &l[i], &mut vec![])).0;
                    let _ = tx2.send(r);
                }
            });
            for b in 0..n {
                for (x, y) in [(0, 0), (2, 2), (0, 2), (4, 4)] {
                    let here = |i: usize, op: usize| supervised("histories: across threads", &l[i].b, || step(op, &l[i], &mut vec![])).0;
                    let there = |i: usize, op: usize| {
                        tx.send((i, op)).unwrap();
                        rx2.recv().unwrap()
                    };
                    let rs = [(a, x, here(a, x)), (b, y, there(b, y)), (b, x, here(b, x)), (a, y, there(a, y))];
                    for (i, op, r) in rs {
                        th.st.nodes += 1;
                        th.st.transitions += 1;
                        let ok = fresh[i][op] == 0 || r.as_ref().is_ok_and(|s| fold(s) | 1 == fresh[i][op]);
                        th.count(if ok { "same as in a fresh process" } else { "differs" });
                        if !ok {
                            th.violation(format!("handoff:{a}:{b}:{x}:{y}"), &l[i].b, format!("'{}' ({}) yields {r:.300?} with '{}' and '{}' on two threads", l[i].name, OPS[op], l[a].name, l[b].name));
                        }
                    }
                }
            }
            drop(tx);
        });
    });
}

/// Two overlapping parses: the first stops at its i-th allocator call, the second runs and stops at its
/// j-th, the first runs to its end, then the second does.
fn interleavings(cx: &Cx, l: &[Msg], fresh: &[[u64; 8]]) {
    let some: Vec<usize> = stateful(l).into_iter().filter(|i| l[*i].b.len() < 200).collect();
    let limit = if cx.thorough { 400 } else { 60 };
    let points: Vec<[Vec<u64>; 2]> = some
        .iter()
        .map(|i| {
            let n = points_of(&l[*i].b).min(limit);
            let stride = if cx.thorough || n <= 24 { 1 } else { n.div_ceil(24) };
            [(1..=n).collect(), (0..=n).step_by(stride as usize).collect()]
        })
        .collect();
    interleave(cx, "interleavings of two parses", l, fresh, &some, &points);
    // long parses, stopped at many (not all) points: what adds up over two of them
    let l = large_messages();
    let fresh = fresh_of(&l, &[0], cx.threads);
    let all: Vec<usize> = (0..l.len()).collect();
    let points: Vec<[Vec<u64>; 2]> = l
        .iter()
        .map(|m| {
            let n = points_of(&m.b);
            let at = |k: u64| (1..=k).map(|x| 1 + (n.max(1) - 1) * x / k).collect::<Vec<_>>();
            if cx.thorough { [at(48), at(24)] } else { [at(12), at(6)] }
        })
        .collect();
    interleave(cx, "interleavings of two long parses", &l, &fresh, &all, &points);
}
/// The scheduling points of a parse.
fn points_of(b: &[u8]) -> u64 {
    let c = crate::alloc::calls();
    let r = supervised("interleavings of two parses", b, || RemotingMessage::parse(b)).0;
    let n = crate::alloc::calls() - c;
    drop(r);
    n
}
/// Messages which use much of everything a reader might count or limit, and messages which fail late.
fn large_messages() -> Vec<Msg> {
    let m = || E::msg(1);
    let many = |n: i32, e: E, f: &dyn Fn(E, i32) -> E| (0..n).fold(e, |e, k| f(e, k));
    let mut v = vec![
        ("nested objects", many(600, m(), &|e, k| e.sys(k + 1, "A", &["x"])).null()),
        ("nested arrays", many(600, m(), &|e, k| e.arr_obj(k + 1, 1).r(k + 2)).string(601, "s")),
        ("members", many(500, m().sys(1, "A", &(0..500).map(|k| format!("m{k}")).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>()), &|e, k| e.int(k))),
        ("strings", many(500, many(500, m().arr_obj(1, 500), &|e, k| e.r(k + 2)), &|e, k| e.string(k + 2, "s"))),
        ("libraries", many(300, m().arr_obj(1, 300), &|e, k| e.lib(k + 1, &format!("L{k}")).cls(k + 2, "A", &["x"], k + 1).int(k))),
        ("definitions", many(300, m().arr_obj(1, 300), &|e, k| e.sys(k + 2, "A", &["x", "y"]).int(k).null())),
        ("re-uses", many(600, m().arr_obj(1, 601).sys(2, "A", &["x"]).int(-1), &|e, k| e.byid(k + 3, 2).int(k))),
        ("nulls", m().arr_obj(1, 20_000).nulls(20_000)),
        ("bytes", many(5000, m().arr_prim(1, 5000, 2), &|e, k| e.u8(k as u8))),
        ("long string", m().string(1, &"é".repeat(5000))),
        ("arguments", many(500, E::msg(0).call(0x12, "M", "T").i32(500), &|e, k| e.u8(8).i32(k))),
        ("rank", m().bin_arr(1, 2, &[1; 200], &[], &t_obj()).int(7)),
        ("rows", many(400, m().bin_arr(1, 2, &[200, 2], &[], &t_prim(8)), &|e, k| e.i32(k))),
    ];
    let mut late: Vec<(&str, E)> = vec![];
    for (n, e) in &v {
        late.push((n, e.clone().r(1)))
    }
    v.extend(late);
    v.into_iter().map(|(n, e)| Msg { name: n.into(), b: e.end(), loose: false }).collect()
}
fn interleave(cx: &Cx, name: &'static str, l: &[Msg], fresh: &[[u64; 8]], some: &[usize], points: &[[Vec<u64>; 2]]) {
    let m = some.len();
    cx.par(name, m, |th, a| {
        let baton = std::sync::Arc::new(Baton::default());
        let (tx, rx) = std::sync::mpsc::channel::<(usize, u64)>();
        let (tx2, rx2) = std::sync::mpsc::channel::<Result<String, String>>();
        let one = move |i: usize, n: u64| {
            supervised(name, &l[i].b, || {
                crate::alloc::schedule(n, preempt);
                let r = RemotingMessage::parse(&l[i].b);
                crate::alloc::schedule(0, preempt);
                shown(&r, l[i].loose)
            })
            .0
        };
        BATON.with(|b| *b.borrow_mut() = Some((baton.clone(), 0)));
        std::thread::scope(|s| {
            let other = baton.clone();
            s.spawn(move || {
                BATON.with(|b| *b.borrow_mut() = Some((other.clone(), 1)));
                while let Ok((i, n)) = rx.recv() {
                    other.wait(1);
                    let r = one(i, n);
                    other.give(0);
                    let _ = tx2.send(r);
                }
            });
            let ia = some[a];
            for b in 0..m {
                let ib = some[b];
                for i in points[a][0].iter().copied() {
                    for j in points[b][1].iter().copied() {
                        if th.stopped() {
                            return;
                        }
                        baton.set(0);
                        tx.send((ib, j)).unwrap();
                        let ra = one(ia, i);
                        // the other one, if it has not run or waits in the middle, has to come to its end
                        baton.set(9);
                        let rb = rx2.recv().unwrap();
                        th.st.nodes += 1;
                        th.st.transitions += 2;
                        for (x, r) in [(ia, ra), (ib, rb)] {
                            let ok = fresh[x][0] == 0 || r.as_ref().is_ok_and(|s| fold(s) | 1 == fresh[x][0]);
                            if !ok {
                                th.violation(format!("interleaving:{ia}:{ib}:{i}:{j}"), &l[x].b, format!("'{}' yields {r:.300?} when '{}' stops at allocation {i} for '{}', and that one at {j}", l[x].name, l[ia].name, l[ib].name));
                            }
                        }
                        th.count("schedules with the results of a fresh process");
                    }
                }
            }
            drop(tx);
        });
        BATON.with(|b| *b.borrow_mut() = None);
    });
}
