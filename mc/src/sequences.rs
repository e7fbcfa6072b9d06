//! Every sequence of records out of a catalogue of all kinds, at top level and in place.
use crate::enc::*;
use crate::harness::Cx;
use crate::suites::pick;

/// How the values of a class that was defined earlier are written when it is used again.
#[derive(Clone, Copy, PartialEq)]
enum Fill {
    None,
    Null,
    I32,
    StrSlot,
    IntThenNull,
}
use Fill::*;

/// A message being put together: record k gets the id `base + k`, in place ones come from `inner` on.
struct B {
    e: E,
    base: i32,
    k: i32,
    inner: i32,
    libs: i32,
    fills: Vec<(i32, Fill)>,
}
impl B {
    fn id(&self) -> i32 {
        self.base + self.k
    }
    fn rel(&self, d: i32) -> i32 {
        (self.base + self.k + d).max(1)
    }
    fn inner(&mut self) -> i32 {
        self.inner += 1;
        self.inner
    }
    fn put(&mut self, f: impl FnOnce(E) -> E) {
        let e = std::mem::replace(&mut self.e, E::new());
        self.e = f(e);
    }
    fn lib(&mut self) -> i32 {
        self.libs += 1;
        let l = self.libs;
        self.put(|e| e.lib(l, if l % 2 == 0 { "L" } else { "M" }));
        l
    }
    fn fill(&mut self, f: Fill) {
        self.put(|e| match f {
            None => e,
            Null => e.null(),
            I32 => e.i32(0x0a0b),
            StrSlot => e.null(),
            IntThenNull => e.i32(7).null(),
        })
    }
    fn class(&mut self, id: i32, c: usize, name: &str) {
        let f = [None, Null, I32, StrSlot, IntThenNull, Null, I32, None][c];
        match c {
            0 => self.put(|e| e.sys(id, name, &[])),
            1 => self.put(|e| e.sys(id, name, &["m"])),
            2 => self.put(|e| e.syst(id, name, &["m"], &[t_prim(8)])),
            3 => self.put(|e| e.syst(id, name, &["s"], &[t_str()])),
            4 => self.put(|e| e.syst(id, name, &["m", "n"], &[t_prim(8), t_obj()])),
            5 => {
                let l = self.lib();
                self.put(|e| e.cls(id, name, &["m"], l))
            }
            6 => {
                let l = self.lib();
                self.put(|e| e.clst(id, name, &["m"], &[t_prim(8)], l))
            }
            _ => {
                // with the library that was defined last, if any
                let l = self.libs.max(1);
                self.put(|e| e.clst(id, name, &[], &[], l))
            }
        }
        self.fill(f);
        self.fills.push((id, f));
    }
    fn again(&mut self, id: i32, d: i32) {
        let meta = self.rel(d);
        let f = self.fills.iter().find(|x| x.0 == meta).map_or(Null, |x| x.1);
        self.put(|e| e.byid(id, meta));
        self.fill(f);
        self.fills.push((id, f));
    }
}

const LIST: &str = "System.Collections.Generic.List`1[[System.Object]]";

type Rec = fn(&mut B);
fn top() -> Vec<Rec> {
    macro_rules! e {
        ($b:ident, $id:ident, $x:ident, $body:expr) => {
            |$b| {
                let $id = $b.id();
                $b.put(|$x| $body)
            }
        };
    }
    vec![
        // strings
        e!(b, id, x, x.string(id, "")),
        e!(b, id, x, x.string(id, "s")),
        // single arrays
        e!(b, id, x, x.arr_obj(id, 0)),
        e!(b, id, x, x.arr_obj(id, 1).null()),
        e!(b, id, x, x.arr_obj(id, 2).int(id).nulls8(1)),
        e!(b, id, x, x.arr_obj(id, 3).nulls(3)),
        |b| {
            let (id, p) = (b.id(), b.rel(-1));
            b.put(|x| x.arr_obj(id, 1).r(p))
        },
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.arr_obj(id, 1).r(p))
        },
        |b| {
            let (id, p, q) = (b.id(), b.rel(-1), b.rel(1));
            b.put(|x| x.arr_obj(id, 2).r(q).r(p))
        },
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.arr_obj(id, 2).string(n, "t").r(n))
        },
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.arr_obj(id, 1));
            b.class(n, 2, "A");
        },
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.arr_obj(id, 2));
            b.class(n, 6, "A");
            b.put(|x| x.r(n))
        },
        e!(b, id, x, x.arr_str(id, 0)),
        |b| {
            let (id, p) = (b.id(), b.rel(-1));
            b.put(|x| x.arr_str(id, 2).r(p).null())
        },
        e!(b, id, x, x.arr_prim(id, 0, 8)),
        e!(b, id, x, x.arr_prim(id, 1, 8).i32(id)),
        e!(b, id, x, x.arr_prim(id, 2, 2).u8(16).u8(11)),
        // general arrays
        e!(b, id, x, x.bin_arr(id, 0, &[1], &[], &t_obj()).null()),
        e!(b, id, x, x.bin_arr(id, 2, &[1, 2], &[], &t_prim(2)).u8(6).u8(9)),
        e!(b, id, x, x.bin_arr(id, 5, &[2, 1], &[3, -1], &t_str()).nulls8(2)),
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.bin_arr(id, 1, &[2], &[], &t_primarr(8)).r(p).null())
        },
        // objects
        |b| b.class(b.id(), 0, "A"),
        |b| b.class(b.id(), 1, "A"),
        |b| b.class(b.id(), 2, "A"),
        |b| b.class(b.id(), 3, "B"),
        |b| b.class(b.id(), 4, "A"),
        |b| b.class(b.id(), 5, "A"),
        |b| b.class(b.id(), 6, "A"),
        |b| b.class(b.id(), 7, "A"),
        |b| b.class(b.id(), 2, "System.Int32"),
        |b| b.again(b.id(), -1),
        |b| b.again(b.id(), -2),
        |b| b.again(b.id(), -3),
        // an object defined or re-used inside another one
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.sys(id, "O", &["i"]));
            b.class(n, 1, "A");
        },
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.sys(id, "O", &["i"]));
            b.again(n, -1);
        },
        |b| {
            let (id, n) = (b.id(), b.inner());
            b.put(|x| x.arr_obj(id, 2));
            b.again(n, -2);
            b.put(|x| x.r(n))
        },
        // members that refer to others
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.sys(id, "R", &["next"]).r(p));
        },
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.sys(id, "A", &["_items"]).r(p));
        },
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.syst(id, LIST, &["_items", "_size", "_version"], &[t_objarr(), t_prim(8), t_prim(8)]).r(p).i32(1).i32(1));
        },
        |b| {
            let (id, p) = (b.id(), b.rel(-1));
            b.put(|x| x.syst(id, "R", &["s"], &[t_str()]).r(p));
        },
        // method calls and returns
        |b| b.put(|x| x.call(0x11, "M", "T")),
        |b| b.put(|x| x.call(0x12, "M", "T").i32(1).u8(8).i32(5)),
        |b| {
            let id = b.id();
            b.put(|x| x.call(0x14, "M", "T").arr_obj(id, 1).int(3))
        },
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.call(0x18, "M", "T").arr_obj(id, 1).r(p))
        },
        |b| {
            let (id, p) = (b.id(), b.rel(-1));
            b.put(|x| x.call(0x18, "M", "T").arr_obj(id, 1).r(p))
        },
        |b| {
            let (id, p, q) = (b.id(), b.rel(1), b.rel(-1));
            b.put(|x| x.call(0x48, "M", "T").arr_obj(id, 2).r(p).r(q))
        },
        |b| b.put(|x| x.ret(0x211)),
        |b| b.put(|x| x.ret(0x811).u8(8).i32(5)),
        |b| {
            let (id, p) = (b.id(), b.rel(1));
            b.put(|x| x.ret(0x414).arr_obj(id, 1).r(p))
        },
        |b| {
            let (id, p) = (b.id(), b.rel(-1));
            b.put(|x| x.ret(0x1018).arr_obj(id, 2).r(p).null())
        },
        |b| {
            let id = b.id();
            b.put(|x| x.ret(0x2011).arr_obj(id, 1).string(id + 500, "exception"))
        },
        // something that belongs to no object
        |b| {
            b.lib();
        },
    ]
}

/// What may stand in place of an element or an untyped member.
fn inline() -> Vec<Rec> {
    vec![
        |b| b.put(|x| x.null()),
        |b| b.put(|x| x.int(4)),
        |b| b.put(|x| x.typed(2, &[6])),
        |b| {
            let id = b.id();
            b.put(|x| x.string(id, ""))
        },
        |b| {
            let id = b.id();
            b.put(|x| x.string(id, "s"))
        },
        |b| {
            let p = b.rel(-1);
            b.put(|x| x.r(p))
        },
        |b| {
            let p = b.rel(-2);
            b.put(|x| x.r(p))
        },
        |b| {
            let p = b.rel(1);
            b.put(|x| x.r(p))
        },
        |b| {
            let p = b.base + 90;
            b.put(|x| x.r(p))
        },
        |b| {
            let p = b.base + 91;
            b.put(|x| x.r(p))
        },
        |b| b.class(b.id(), 0, "A"),
        |b| b.class(b.id(), 1, "A"),
        |b| b.class(b.id(), 2, "A"),
        |b| b.class(b.id(), 3, "B"),
        |b| b.class(b.id(), 4, "A"),
        |b| b.class(b.id(), 5, "A"),
        |b| b.class(b.id(), 6, "A"),
        |b| b.class(b.id(), 7, "A"),
        |b| b.again(b.id(), -1),
        |b| b.again(b.id(), -2),
        |b| b.again(b.id(), -3),
        // the next thing is a member of this
        |b| {
            let id = b.id();
            b.put(|x| x.sys(id, "O", &["i"]))
        },
        |b| {
            let id = b.id();
            b.put(|x| x.syst(id, "P", &["a", "i"], &[t_prim(8), t_obj()]).i32(6))
        },
        |b| b.put(|x| x.nulls8(2)),
    ]
}

fn new(base: i32) -> B {
    B { e: E::new(), base, k: 0, inner: base + 40, libs: 1000, fills: vec![] }
}

pub fn sequences(cx: &Cx) {
    let t = top();
    let n = t.len();
    let bases = [1, 254, 255, 256, 65535];
    let len = 3;
    cx.par("every sequence of records of all kinds", n.pow(len as u32) * bases.len(), |th, mut k| {
        let base = bases[pick(&mut k, bases.len())];
        let mut b = new(base);
        for _ in 0..len {
            t[pick(&mut k, n)](&mut b);
            b.k += 1
        }
        let bytes = b.e.end();
        for root in base..base + len {
            th.check(&E::msg(root).raw(&bytes).0)
        }
    });
    if cx.thorough {
        let len = 4;
        cx.par("every longer sequence of records of all kinds", n.pow(len as u32) * 2, |th, mut k| {
            let base = [1, 253][pick(&mut k, 2)];
            let mut b = new(base);
            for _ in 0..len {
                t[pick(&mut k, n)](&mut b);
                b.k += 1
            }
            let bytes = b.e.end();
            for root in base..base + len {
                th.check(&E::msg(root).raw(&bytes).0)
            }
        });
    }
    // around every power of two
    let some: Vec<Rec> = [1, 2, 6, 7, 11, 16, 20, 22, 23, 26, 27, 30, 31, 33, 35, 36, 41, 42].iter().map(|k| t[*k]).collect();
    let m = some.len();
    cx.par("sequences of records with ids around the powers of two", m * m * m * 29 * 3, |th, mut k| {
        let base = (1i32 << (1 + pick(&mut k, 29))) + pick(&mut k, 3) as i32 - 2;
        let mut b = new(base.max(1));
        for _ in 0..3 {
            some[pick(&mut k, m)](&mut b);
            b.k += 1
        }
        let (base, bytes) = (b.base, b.e.end());
        for root in base..base + 3 {
            th.check(&E::msg(root).raw(&bytes).0)
        }
    });
    // a definition or a reference that something comes between: first, many of something, last
    cx.par("pairs of records with others repeated between", n * n * n, |th, mut k| {
        let (x, y, z) = (pick(&mut k, n), pick(&mut k, n), k);
        let mut b = new(1);
        b.inner = 200;
        let times = 9;
        t[x](&mut b);
        b.k += 1;
        for _ in 0..times {
            t[y](&mut b);
            b.k += 1
        }
        t[z](&mut b);
        let bytes = b.e.end();
        for root in [1, 2, 2 + times] {
            th.check(&E::msg(root).raw(&bytes).0)
        }
    });
    let i = inline();
    let n = i.len();
    let len = if cx.thorough { 4 } else { 3 };
    cx.par("every sequence of records in place", n.pow(len as u32) * 8, |th, mut k| {
        let place = pick(&mut k, 8);
        let base = if place % 2 == 0 { 2 } else { 253 };
        let mut b = new(base);
        for _ in 0..len {
            i[pick(&mut k, n)](&mut b);
            b.k += 1
        }
        let l = len as i32;
        let behind = |e: E| e.string(base + 90, "late").arr_obj(base + 91, 1).int(1);
        let body = b.e;
        let bytes = match place {
            0 | 1 => behind(E::msg(1).arr_obj(1, l).cat(&body)),
            2 => behind(E::msg(1).sys(1, "Z", &["a", "b", "c", "d"][..len]).cat(&body)),
            3 => behind(E::msg(1).bin_arr(1, 2, &[1, l], &[], &t_obj()).cat(&body)),
            4 => behind(E::msg(1).call(0x14, "M", "T").arr_obj(1, l).cat(&body)),
            5 => behind(E::msg(1).call(0x58, "M", "T").arr_obj(1, l).cat(&body)),
            6 => behind(E::msg(1).ret(0x414).arr_obj(1, l).cat(&body)),
            _ => behind(E::msg(1).ret(0x1018).arr_obj(1, l).cat(&body)),
        };
        th.check(&bytes.end())
    });
}
