//! Enumerations for deserialisation (C19 to C21, C24).
use crate::corpus::{self, PRIMS, raw};
use crate::enc::*;
use crate::encode::plain;
use crate::harness::Cx;
use crate::meta::{N, a, i, o, s};
use crate::model;
use crate::rv::RVal;
use crate::serdes::{Group, Group::*, LIST};
use crate::suites::{INTS, ladder, pick, prim_patterns};

/// A message whose root is an array with this value as its only element.
fn in_array(v: &RVal) -> Vec<u8> {
    plain(&a(vec![v.clone()]))
}
fn in_object(v: &RVal) -> Vec<u8> {
    plain(&o("A", None, vec![("x", v.clone())]))
}

/// Every scalar pattern x containers x scalar targets.
pub fn scalars(cx: &Cx, types: &[u8], suite: &'static str) {
    let pats: Vec<(u8, Vec<Vec<u8>>)> = types
        .iter()
        .map(|t| {
            let p = prim_patterns(*t, cx.thorough);
            let n = p.len();
            let stride = if cx.thorough || n <= 66_000 && *t != 5 { 1 } else { 5 };
            (*t, p.into_iter().enumerate().filter(|(k, _)| *k < 5200 || *k > n - 3000 || k % stride == 0).map(|x| x.1).collect())
        })
        .collect();
    let jobs: Vec<(usize, usize)> =
        pats.iter().enumerate().flat_map(|(i, p)| (0..p.1.len().div_ceil(64)).map(move |k| (i, k))).collect();
    cx.par(suite, jobs.len(), |th, k| {
        let (p, k) = jobs[k];
        let t = pats[p].0;
        for (j, b) in pats[p].1[k * 64..].iter().take(64).enumerate() {
            let e = E::msg(1).arr_obj(1, 1).typed(t, b).end();
            th.serde_at(&[Scalars], &e, Some(0));
            if j % 2 == 0 || th.cx.thorough {
                th.serde(&[InVec], &e);
                th.serde(&[InMap], &E::msg(1).syst(1, "A", &["x"], &[t_prim(t)]).raw(b).end());
            }
        }
    });
}

const BOXED: [&str; 12] = [
    "System.Boolean", "System.Byte", "System.SByte", "System.Char", "System.Double", "System.Single", "System.Int16", "System.UInt16",
    "System.Int32", "System.UInt32", "System.Int64", "System.UInt64",
];
const OTHERS: [&str; 16] = [
    "System.Int32[]", "System.int32", "Int32", "System.Int32 ", "System.String", "System.Decimal", "System.DateTime", "System.TimeSpan",
    "System.Guid", "System.Object", "System.IntPtr", "System.Int", "System", "A", "System.Int32, mscorlib", "My.System.Int32",
];

fn some_values() -> Vec<RVal> {
    let mut v = vec![];
    for t in PRIMS {
        let mut ps = prim_patterns(t, false);
        if !matches!(t, 1) {
            ps.retain(|p| {
                let n = p.iter().filter(|b| **b != 0 && **b != 255).count();
                n <= 1 && p.iter().all(|b| [0, 1, 2, 127, 128, 129, 255, 254, 64].contains(b))
            });
        }
        if t == 3 {
            ps = ["a", "\0", "ß", "€", "𝄞", "1"].iter().map(|c| c.as_bytes().to_vec()).collect();
        }
        if t == 5 {
            ps = ["0", "1", "-12.50", "79228162514264337593543950335", "7"].iter().map(|c| lps(c.as_bytes())).collect();
        }
        ps.truncate(24);
        ps.push(raw(t));
        for p in ps {
            let b = E::msg(1).arr_obj(1, 1).typed(t, &p).end();
            if let model::Verdict::Accept { msg: crate::rv::RMsg::Value(RVal::Arr(mut a)), .. } = model::run(&b) {
                v.extend(a.pop().filter(|v| *v != RVal::DecAny))
            }
        }
    }
    v.extend([N, s(""), s("x"), s("5"), s("true"), a(vec![]), a(vec![i(1)]), o("A", None, vec![]), o("A", None, vec![("x", i(1))])]);
    v.push(o("System.Int32", None, vec![("m_value", i(5))]));
    v.push(o("System.Boolean", None, vec![("m_value", RVal::Bool(true))]));
    v.push(o("System.Int32", None, vec![("m_value", s("x"))]));
    v
}

/// Boxed system classes: names x member configurations x values x libraries x positions.
pub fn boxed(cx: &Cx) {
    let vals = some_values();
    let names: Vec<&str> = BOXED.iter().chain(&OTHERS).copied().collect();
    cx.par("boxed classes x values", names.len() * vals.len(), |th, mut k| {
        let name = names[pick(&mut k, names.len())];
        let v = &vals[k];
        for lib in [None, Some("mscorlib")] {
            let b = o(name, lib, vec![("m_value", v.clone())]);
            let m = plain(&b);
            th.serde(&[Scalars], &m);
            if lib.is_none() {
                th.serde(&[InVec], &in_array(&b));
                th.serde(&[InMap], &in_object(&b));
            }
        }
    });
    let few = [i(5), RVal::Bool(true), RVal::Byte(7), N, s("x"), RVal::Char('c'), RVal::F64(0), RVal::F32(0), RVal::I64(9), RVal::U64(9), RVal::I16(3), RVal::U16(4), RVal::I8(1), RVal::U32(2)];
    let shapes: [&[&str]; 14] = [
        &[], &["value"], &["m_value", "extra"], &["extra", "m_value"], &["M_value"], &["m_value "], &["m_valu"], &["_value"], &[""],
        &["m_value", "m_value2"], &["a", "b"], &["m_value", "a", "b"], &["a", "m_value", "b"], &["m_"],
    ];
    cx.par("boxed classes x wrong members", names.len() * shapes.len() * few.len() * 2, |th, mut k| {
        let name = names[pick(&mut k, names.len())];
        let sh = shapes[pick(&mut k, shapes.len())];
        let v = &few[pick(&mut k, few.len())];
        let other = [v.clone(), N][k].clone();
        let members: Vec<(&str, RVal)> = sh.iter().enumerate().map(|(j, n)| (*n, if j == 0 { v.clone() } else { other.clone() })).collect();
        for lib in [None, Some("L")] {
            let b = o(name, lib, members.clone());
            th.serde(&[Scalars], &plain(&b));
        }
    });
    cx.par("boxed classes in typed slots, by id, nested", 12 * PRIMS.len(), |th, mut k| {
        let name = BOXED[pick(&mut k, 12)];
        let t = PRIMS[k];
        let m = E::msg(1).arr_obj(1, 3).syst(2, name, &["m_value"], &[t_prim(t)]).raw(&raw(t)).byid(3, 2).raw(&raw(t)).null().end();
        th.serde(&[Seqs], &m);
        let m = E::msg(1).bin_arr(1, 0, &[2], &[], &t_sys(name)).syst(2, name, &["m_value"], &[t_prim(t)]).raw(&raw(t)).r(4).byid(4, 2).raw(&raw(t)).end();
        th.serde(&[Seqs], &m);
        let m = E::msg(1).syst(1, "A", &["x", "y"], &[t_sys(name), t_obj()]).syst(2, name, &["m_value"], &[t_prim(t)]).raw(&raw(t)).byid(3, 2).raw(&raw(t)).end();
        th.serde(&[Maps], &m);
        let m = E::msg(1).sys(1, name, &["m_value"]).sys(2, name, &["m_value"]).typed(t, &raw(t)).end();
        th.serde(&[Scalars], &m);
    });
}

fn element_kinds() -> Vec<RVal> {
    vec![i(7), N, s("t"), a(vec![i(1), i(2)]), o("A", None, vec![("x", i(3))]), RVal::Byte(9), RVal::Bool(true), i(-1)]
}

fn lists_of(kinds: &[RVal], max: usize) -> Vec<Vec<RVal>> {
    let mut v = vec![];
    for n in 0..=max {
        for mut k in 0..kinds.len().pow(n as u32) {
            v.push((0..n).map(|_| kinds[pick(&mut k, kinds.len())].clone()).collect())
        }
    }
    v
}

/// Arrays of every combination of elements x sequence targets x positions.
pub fn arrays(cx: &Cx) {
    let l = lists_of(&element_kinds(), if cx.thorough { 5 } else { 4 });
    cx.par("element lists x sequence targets", l.len(), |th, k| {
        let v = a(l[k].clone());
        th.serde(&[Seqs], &plain(&v));
        if l[k].len() <= 3 {
            th.serde(&[Seqs], &in_array(&v));
            th.serde(&[Maps], &in_object(&v));
        }
    });
    let sizes = if cx.thorough { ladder(600, 70_000) } else { ladder(70, 5000) };
    cx.par("array sizes x kinds x sequence targets", sizes.len() * 6, |th, mut k| {
        let kind = pick(&mut k, 6);
        let n = sizes[sizes.len() - 1 - k];
        let ns = n as i32;
        let b = match kind {
            0 => plain(&a((0..ns).map(i).collect())),
            1 => E::msg(1).arr_prim(1, ns, 8).raw(&(0..ns).flat_map(|k| k.to_le_bytes()).collect::<Vec<_>>()).end(),
            2 => plain(&a((0..ns).map(|k| if k % 3 == 0 { i(k) } else { N }).collect())),
            3 => plain(&a((0..ns).map(|k| if k % 5 < 2 { s("ab") } else { N }).collect())),
            4 => E::msg(1).arr_prim(1, ns, 2).raw(&(0..n).map(|k| (k * 7) as u8).collect::<Vec<_>>()).end(),
            _ => {
                let items = a((0..ns).map(i).collect());
                plain(&list("`1[[System.Int32]]", items, (ns + 1) / 2))
            }
        };
        th.serde(&[Seqs], &b);
    });
}

/// Long lists and arrays: element counts x sizes around the powers of two.
pub fn long_lists(cx: &Cx) {
    let ns = ladder(3, if cx.thorough { 300_000 } else { 70_000 });
    cx.par("long lists x sizes", ns.len() * 3, |th, mut k| {
        let kind = pick(&mut k, 3);
        let n = ns[ns.len() - 1 - k] as i32;
        let mut sizes = vec![0, 1, n / 2, n - 1, n, n + 1, 2 * n];
        sizes.extend((0..20).map(|p| 1 << p).filter(|z| *z < n));
        if n > 5000 && !th.cx.thorough {
            sizes = vec![1, 4096, n - 1, n, n + 1]
        }
        let items = |kind: i32| -> RVal {
            match kind {
                0 => a((0..n).map(i).collect()),
                1 => a((0..n).map(|x| if x % 2 == 0 || x + 2 >= n { i(x) } else { N }).collect()),
                _ => a((0..n).map(|x| RVal::Byte(x as u8)).collect()),
            }
        };
        let it = items(kind as i32);
        for z in sizes {
            th.serde(&[Few], &plain(&list("`1[[System.Object]]", it.clone(), z)))
        }
        th.serde(&[Few], &plain(&it));
        th.serde(&[Few], &in_array(&it));
    });
}

fn list(suffix: &str, items: RVal, size: i32) -> RVal {
    o(&format!("{LIST}{suffix}"), None, vec![("_items", items), ("_size", i(size)), ("_version", i(1))])
}

/// Generic lists: items x sizes x element kinds x member configurations.
pub fn lists(cx: &Cx) {
    let kinds: Vec<RVal> = element_kinds().into_iter().take(if cx.thorough { 8 } else { 5 }).collect();
    let items = lists_of(&kinds, if cx.thorough { 4 } else { 3 });
    cx.par("list items x size x targets", items.len(), |th, k| {
        let n = items[k].len() as i32;
        let mut sizes: Vec<i32> = (-2..=n + 3).collect();
        sizes.extend([256, 257, 65536, 65536 + n, i32::MAX, i32::MIN, i32::MIN + n, i32::MIN + n + 1, 256 + n, 0x0100_0000, -256, n - 256]);
        for z in sizes {
            let l = list("`1[[System.Object]]", a(items[k].clone()), z);
            th.serde(&[Seqs], &plain(&l));
            if n <= 2 {
                th.serde(&[Seqs], &in_array(&l));
                th.serde(&[Maps], &in_object(&l));
            }
        }
    });
    let names = [
        "`1[[System.Int32]]", "`1", "`1[[System.Collections.Generic.List`1[[System.Int32]]]]", "", "`", "`2[[A],[B]]", "2`1", "Node`1", "`1[[A, L, Version=1.0]]",
    ];
    let item_opts = [a(vec![]), a(vec![i(1), i(2)]), a(vec![N, N, N]), N, i(3), s("x"), o("A", None, vec![]), a(vec![a(vec![i(1)])])];
    let size_opts = [i(0), i(1), i(2), i(3), i(4), i(-1), N, RVal::I64(1), RVal::U32(1), RVal::I16(1), RVal::Byte(1), s("1"), RVal::F64(1f64.to_bits())];
    let version_opts = [Some(i(0)), Some(i(-5)), Some(N), None, Some(RVal::I64(1)), Some(s("v"))];
    let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let total = names.len() * item_opts.len() * size_opts.len() * version_opts.len();
    cx.par("list members x kinds x names", total, |th, mut k| {
        let name = names[pick(&mut k, names.len())];
        let it = &item_opts[pick(&mut k, item_opts.len())];
        let sz = &size_opts[pick(&mut k, size_opts.len())];
        let ve = &version_opts[k];
        let mut m = vec![("_items", it.clone()), ("_size", sz.clone())];
        if let Some(v) = ve {
            m.push(("_version", v.clone()))
        }
        let class = format!("{LIST}{name}");
        for order in &orders {
            let ord: Vec<_> = order.iter().filter_map(|x| m.get(*x).cloned()).collect();
            th.serde(&[Few], &plain(&o(&class, None, ord)));
        }
        th.serde(&[Seqs], &plain(&o(&class, None, m.clone())));
        // a class of that name in a library is a class like any other
        th.serde(&[Few, Maps], &plain(&o(&class, Some("L"), m.clone())));
        for extra in ["_syncRoot", "x", "_size2", ""] {
            let mut m = m.clone();
            m.push((extra, N));
            th.serde(&[Few], &plain(&o(&class, None, m)));
        }
        for skip in 0..m.len() {
            let mut m = m.clone();
            let x = m.remove(skip);
            th.serde(&[Few], &plain(&o(&class, None, m.clone())));
            m.push((["items", "size", "version"][skip.min(2)], x.1));
            th.serde(&[Few], &plain(&o(&class, None, m)));
        }
    });
}

/// Objects: ordered member subsets x values x classes x struct and map targets.
pub fn objects(cx: &Cx) {
    let names = ["x", "y", "z", "w"];
    let mut seqs: Vec<Vec<&str>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..if cx.thorough { 4 } else { 3 } {
        last = last
            .iter()
            .flat_map(|q| names.iter().filter(|n| !q.contains(n)).map(|n| { let mut q = q.clone(); q.push(*n); q }).collect::<Vec<_>>())
            .collect();
        seqs.extend(last.clone());
    }
    let vals = [i(7), N, s("t"), o("B", None, vec![("x", i(1))]), a(vec![i(4)]), RVal::Bool(true), RVal::I64(1 << 40)];
    let vals: Vec<RVal> = vals.into_iter().take(if cx.thorough { 6 } else { 7 }).collect();
    let jobs: Vec<(usize, usize)> = seqs.iter().enumerate().flat_map(|(q, n)| (0..vals.len().pow(n.len() as u32)).map(move |k| (q, k))).collect();
    let classes = [("A", None), ("A", Some("L")), ("System.Foo", None), ("System.Int32", Some("L")), (LIST, Some("L"))];
    cx.par("member subsets and orders x values x struct and map targets", jobs.len(), |th, j| {
        let (q, mut k) = jobs[j];
        let m: Vec<(&str, RVal)> = seqs[q].iter().map(|n| (*n, vals[pick(&mut k, vals.len())].clone())).collect();
        let (class, lib) = classes[j % classes.len()];
        th.serde(&[Maps], &plain(&o(class, lib, m.clone())));
        if m.len() <= 2 {
            for (class, lib) in classes {
                let v = o(class, lib, m.clone());
                th.serde(&[Maps, Nulls], &plain(&v));
                th.serde(&[Maps], &in_object(&v));
                th.serde(&[Seqs], &in_array(&v));
            }
        }
    });
    // all scalar kinds in members
    let sv = some_values();
    cx.par("values of all kinds in members", sv.len(), |th, k| {
        let v = &sv[k];
        th.serde(&[InMap, Maps, Nulls], &in_object(v));
        th.serde(&[Maps], &plain(&o("A", None, vec![("y", v.clone()), ("x", i(1))])));
        th.serde(&[Maps], &plain(&o("A", None, vec![("x", s("q")), ("w", v.clone())])));
        th.serde(&[Maps], &plain(&o("A", None, vec![("x", i(1)), ("w", v.clone())])));
    });
    let sizes = if cx.thorough { ladder(300, 20_000) } else { ladder(40, 1500) };
    cx.par("objects with many members", sizes.len() * 2, |th, mut k| {
        let rev = pick(&mut k, 2) == 1;
        let n = sizes[sizes.len() - 1 - k];
        let names: Vec<String> = (0..n).map(|k| format!("k{k}")).collect();
        let mut m: Vec<(&str, RVal)> = names.iter().enumerate().map(|(k, n)| (n.as_str(), i(k as i32))).collect();
        if rev {
            m.reverse()
        }
        m.insert(n / 2, ("x", i(-1)));
        th.serde(&[Few, Maps], &plain(&o("A", None, m)));
    });
}

/// Every value tree of up to so many nodes x sequence, map and null targets.
pub fn trees(cx: &Cx, most: usize) {
    let leaves = [i(7), N, s("t"), RVal::Bool(true), o("System.Int32", None, vec![("m_value", i(5))])];
    // trees[n]: those of n + 1 nodes; forests[n]: sequences of trees of n nodes together
    let mut trees: Vec<Vec<RVal>> = vec![];
    let mut forests: Vec<Vec<Vec<RVal>>> = vec![vec![vec![]]];
    for n in 0..most {
        let mut t: Vec<RVal> = if n == 0 { leaves.to_vec() } else { vec![] };
        for f in &forests[n] {
            t.push(a(f.clone()));
            let k = f.len() as i32;
            t.push(list("`1[[System.Object]]", a(f.clone()), k));
            if k > 0 {
                t.push(list("`1[[System.Object]]", a(f.clone()), k - 1))
            }
            match &f[..] {
                [] => t.push(o("A", None, vec![])),
                [v] => t.extend(["x", "y"].map(|m| o("A", None, vec![(m, v.clone())]))),
                [v, w] => t.push(o("A", None, vec![("x", v.clone()), ("y", w.clone())])),
                _ => {}
            }
        }
        trees.push(t);
        if n + 1 < most {
            let mut fs = vec![];
            for first in 0..=n {
                for t in &trees[first] {
                    for rest in &forests[n - first] {
                        fs.push(std::iter::once(t.clone()).chain(rest.iter().cloned()).collect())
                    }
                }
            }
            forests.push(fs)
        }
    }
    let all: Vec<(usize, &RVal)> = trees.iter().enumerate().flat_map(|(n, t)| t.iter().map(move |v| (n, v))).collect();
    cx.par("value trees x sequence, map and null targets", all.len(), |th, k| {
        let (n, v) = all[all.len() - 1 - k];
        // what a message may consist of
        if matches!(v, RVal::Arr(_) | RVal::Obj(_)) {
            th.serde(&[Seqs, Maps, Nulls], &plain(v));
        }
        if n < 3 {
            th.serde(&[Seqs, Maps], &in_array(v));
            th.serde(&[Seqs, Maps], &in_object(v));
        }
    });
}

/// Objects with every combination of special class, library and member names.
pub fn named(cx: &Cx) {
    let words = crate::suites::words();
    let n = words.len();
    let vals = [i(7), N, s("t"), a(vec![i(4)])];
    cx.par("special class names x library names", n * (n + 1), |th, mut k| {
        let class = &words[pick(&mut k, n)];
        let lib = words.get(k).map(|w| w.as_str());
        th.serde(&[Names], &plain(&o(class, lib, vec![("m_value", i(7))])));
        th.serde(&[Names], &plain(&o(class, lib, vec![("x", s("t"))])));
        let list = |b| vec![("_items", a(vec![b])), ("_size", i(1)), ("_version", i(3))];
        th.serde(&[Names], &plain(&o(class, lib, list(i(8)))));
        th.serde(&[Names], &in_array(&o(class, lib, vec![])));
    });
    cx.par("special class names x special member names", n * n, |th, mut k| {
        let class = &words[pick(&mut k, n)];
        let name = &words[k];
        for v in &vals {
            th.serde(&[Names], &plain(&o(class, None, vec![(name, v.clone())])));
        }
        th.serde(&[Names], &plain(&o(class, Some("L"), vec![(name, vals[0].clone())])));
    });
    cx.par("pairs of special member names", n * n, |th, mut k| {
        let x = &words[pick(&mut k, n)];
        let y = &words[k];
        if x != y {
            th.serde(&[Names], &plain(&o("A", None, vec![(x, i(1)), (y, i(2))])));
            th.serde(&[Names], &plain(&o("A", Some("L"), vec![(x, i(1)), (y, N)])));
        }
    });
}

/// Objects whose class or member names differ in one place from those with a meaning.
pub fn near_names(cx: &Cx) {
    let edited = crate::suites::edited_names();
    let wide = crate::suites::wide_names();
    let one = |th: &mut crate::harness::Th, base: &str, x: &str| {
        let list = |class: &str| list_of(class, vec![i(8), N], 1);
        th.serde(&[Names], &plain(&o(x, None, vec![("m_value", i(7))])));
        th.serde(&[Names], &plain(&list(x)));
        th.serde(&[Names], &in_array(&o(x, Some("L"), vec![("x", i(7))])));
        for class in ["System.Int32", "A"] {
            th.serde(&[Names], &plain(&o(class, None, vec![(x, i(7))])));
        }
        // the member of that name instead of, or besides, the right one
        for class in ["System.Collections.Generic.List`1", "A"] {
            let m = [("_items", a(vec![i(8), N])), ("_size", i(1)), ("_version", i(3)), ("m_value", i(7)), ("x", i(7))];
            let l: Vec<_> = m.iter().take(if class == "A" { 5 } else { 3 }).map(|(n, v)| (if *n == base { x } else { *n }, v.clone())).collect();
            th.serde(&[Names], &plain(&o(class, None, l.clone())));
            if !l.iter().any(|m| m.0 == x) {
                let mut l = l;
                l.push((x, i(9)));
                th.serde(&[Names], &plain(&o(class, None, l)));
            }
        }
    };
    cx.par("names that differ in one place x name targets", edited.len(), |th, k| one(th, &edited[k].0, &edited[k].1));
    cx.par("wide characters in names x name targets", wide.len(), |th, k| one(th, "", &wide[k]));
}

fn list_of(class: &str, items: Vec<RVal>, size: i32) -> RVal {
    o(class, None, vec![("_items", a(items)), ("_size", i(size)), ("_version", i(1))])
}

/// Special strings x scalar and text targets.
pub fn texts(cx: &Cx) {
    let words = crate::suites::words();
    cx.par("special strings", words.len(), |th, k| {
        let v = s(&words[k]);
        th.serde(&[Scalars, Maps, Nulls], &plain(&v));
        th.serde(&[InVec, Nulls], &in_array(&v));
        th.serde(&[InMap, Nulls], &in_object(&v));
        th.serde(&[Scalars], &plain(&o("System.String", None, vec![("m_value", v.clone())])));
        th.serde(&[Scalars], &plain(&o("System.Char", None, vec![("m_value", v.clone())])));
    });
}

/// Values nested up to two levels with nulls everywhere x targets with optional and unit parts.
pub fn nulls(cx: &Cx) {
    let v0 = vec![N, i(5), s("s")];
    let mut v1 = v0.clone();
    v1.extend(lists_of(&v0, 3).into_iter().map(a));
    for x in &v0 {
        v1.push(o("A", None, vec![("x", x.clone())]));
        v1.push(o("A", None, vec![("y", x.clone())]));
        for y in &v0 {
            v1.push(o("A", None, vec![("x", x.clone()), ("y", y.clone())]));
        }
    }
    v1.push(o("A", None, vec![]));
    v1.push(list("`1", a(vec![N, i(1), N]), 2));
    v1.push(list("`1", a(vec![N, N]), 2));
    v1.push(o("System.Int32", None, vec![("m_value", N)]));
    let n = v1.len();
    let total = n * n * 3 + n * 2;
    cx.par("nested values with nulls x optional and unit targets", total, |th, k| {
        let v = if k < n * n * 3 {
            let (mut k, mut x) = (k, vec![]);
            for _ in 0..2 {
                x.push(v1[pick(&mut k, n)].clone())
            }
            match k {
                0 => a(x),
                1 => o("B", None, vec![("x", x[0].clone()), ("y", x[1].clone())]),
                _ => o("B", Some("L"), vec![("y", x[0].clone()), ("x", x[1].clone())]),
            }
        } else {
            let mut k = k - n * n * 3;
            let x = v1[pick(&mut k, n)].clone();
            if k == 0 { a(vec![x]) } else { o("B", None, vec![("x", x)]) }
        };
        th.serde(&[Nulls], &plain(&v));
        if let RVal::Arr(w) = &v {
            for j in 0..w.len() {
                th.serde_at(&[Nulls], &plain(&v), Some(j));
            }
        }
    });
    cx.par("chains of objects ending in every kind of value", 101 * 6, |th, mut k| {
        let end = [N, i(1), o("N", None, vec![]), o("N", None, vec![("x", i(1))]), a(vec![]), s("n")][pick(&mut k, 6)].clone();
        let mut v = o("N", None, vec![("n", end)]);
        for d in 0..k {
            v = if d % 2 == 0 { o("N", None, vec![("n", v)]) } else { o("N", Some("L"), vec![("q", i(1)), ("n", v)]) };
        }
        th.serde(&[Maps, Nulls], &plain(&v));
    });
}

/// Damaged messages and method messages never deserialise to anything they do not say.
pub fn bytes(cx: &Cx) {
    let seeds = corpus::seeds();
    let jobs: Vec<(usize, usize)> =
        seeds.iter().enumerate().flat_map(|(i, s)| (0..s.b.len()).map(move |p| (i, p))).collect();
    cx.par("single-byte substitutions and truncations of the corpus x targets", jobs.len(), |th, k| {
        let (k, p) = jobs[k];
        let mut b = seeds[k].b.clone();
        th.serde(&[Few], &b[..p].to_vec());
        if p == 0 {
            th.serde(&[Scalars, InVec, InMap, Seqs, Maps, Nulls], &b);
        }
        let orig = b[p];
        for x in 0..=255u8 {
            if th.cx.thorough || x < 24 || x > 252 || x == 127 || x == 128 || x == orig ^ 1 {
                b[p] = x;
                th.serde(&[Few], &b);
            }
        }
    });
    cx.par("corpus messages followed by a byte x targets", seeds.len() * 256, |th, mut k| {
        let mut b = seeds[pick(&mut k, seeds.len())].b.clone();
        b.push(k as u8);
        th.serde(&[Few], &b);
    });
    cx.par("method messages x flags x targets", 0x4000, |th, flags| {
        let f = flags as i32;
        let arr = |e: E| e.arr_obj(1, 3).r(2).r(2).int(1).arr_obj(2, 1).null();
        for root in [0, 1] {
            let mut c = E::msg(root).call(f, "M", "T");
            let mut r = E::msg(root).ret(f);
            if f & 0x800 != 0 {
                r = r.u8(8).i32(7);
            }
            if f & 0x20 != 0 {
                c = c.sc("ctx");
                r = r.sc("ctx");
            }
            if f & 2 != 0 {
                c = c.i32(1).u8(8).i32(3);
                r = r.i32(1).u8(8).i32(3);
            }
            if root == 1 {
                c = arr(c);
                r = arr(r);
            }
            th.serde(&[Few], &c.end());
            th.serde(&[Few], &r.end());
        }
    });
}

/// C24: every pattern of the upper 16 bits and single bits, everywhere.
pub fn ticks(cx: &Cx) {
    let lows = [0u64, 1, 0xffff_ffff_ffff, 0x8000_0000_0000, 0x1234_5678_9abc, 0x7fff_ffff_ffff];
    cx.par("date-times and time spans: upper 16 bits x lower patterns", 65536, |th, hi| {
        for low in lows {
            let b = (((hi as u64) << 48) | low).to_le_bytes();
            let both = E::msg(1).arr_obj(1, 2).typed(13, &b).typed(12, &b).end();
            th.check(&both);
            th.serde(&[Few], &both);
            if th.cx.thorough || hi % 16 == 0 {
                th.serde_at(&[Scalars], &both, Some(0));
                th.serde_at(&[Scalars], &both, Some(1));
            }
            let typed = E::msg(1).syst(1, "A", &["x", "y"], &[t_prim(13), t_prim(12)]).raw(&b).raw(&b).end();
            th.check(&typed);
            th.serde(&[Few], &typed);
        }
    });
    cx.par("date-times and time spans: boundary values", INTS.len() * INTS.len(), |th, mut k| {
        let lo = INTS[pick(&mut k, INTS.len())] as u32;
        let hi = INTS[k] as u32;
        for x in 0..4u64 {
            let b = ((u64::from(hi) << 32 | u64::from(lo)) ^ (x << 62)).to_le_bytes();
            for t in [12, 13] {
                th.check(&E::msg(1).arr_prim(1, 2, t).raw(&b).raw(&b).end());
                th.check(&E::msg(1).bin_arr(1, 2, &[1, 1], &[], &t_prim(t)).raw(&b).end());
                th.check(&E::msg(0).ret(0x811).u8(t).raw(&b).end());
                th.serde(&[Scalars, InVec], &E::msg(1).arr_prim(1, 1, t).raw(&b).end());
            }
        }
    });
}

pub fn groups() -> [Group; 8] {
    [Scalars, InVec, InMap, Seqs, Maps, Nulls, Few, Names]
}
