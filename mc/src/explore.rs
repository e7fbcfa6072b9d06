//! Model-guided exhaustive exploration.
//!
//! A state is what the model knows after a prefix of fields. In every state the model names the field it
//! expects next; the explorer branches over a finite domain of values for that field (records, ids, counts,
//! codes, values, among them invalid ones) and recurses, until the model has accepted or rejected the
//! message. Every prefix, every accepted and every rejected message is given to the implementation.
//!
//! Bounds: how often a path may deviate from the default value (per kind of field: free, counted, never),
//! the number of top-level records, the nesting depth and the number of fields. Within them all paths are
//! visited. An invalid field does not end a path: the rest of the message is completed with defaults, so
//! that the only reason to reject it is the invalid field.
use crate::enc::lps;
use crate::harness::{Cx, Th};
use crate::model::{Exp, Model, Role, SlotKind, TagCtx, Verdict};

#[derive(Clone, Copy, PartialEq)]
pub enum Cost {
    /// Always the default.
    Never,
    /// Every value, at no cost.
    Free,
    /// Every value other than the default counts against the budget.
    Dev,
}

#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    pub budget: u32,
    pub max_fields: u32,
    pub max_top: u32,
    pub max_depth: usize,
    pub top_tags: &'static [u8],
    pub slot_tags: &'static [u8],
    pub cost: fn(Exp) -> Cost,
    /// Values instead of the general domain.
    pub values: fn(Exp) -> Option<Vec<Vec<u8>>>,
    /// Only these header root ids.
    pub roots: &'static [i32],
}

pub const ALL_TOP: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 22, 0, 18, 255];
pub const ALL_SLOT: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 0, 18, 255];

pub fn general(name: &'static str) -> Profile {
    Profile {
        name,
        budget: 2,
        max_fields: 40,
        max_top: 4,
        max_depth: 12,
        top_tags: ALL_TOP,
        slot_tags: ALL_SLOT,
        cost: |_| Cost::Dev,
        values: |_| None,
        roots: &[1, 2, 0, -1, 256],
    }
}

fn i(n: i32) -> Vec<u8> {
    n.to_le_bytes().to_vec()
}
fn uniq<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x)
        }
    }
    out
}
fn prim_values(t: u8) -> Vec<Vec<u8>> {
    match t {
        1 => vec![vec![1], vec![0], vec![2], vec![12]],
        2 | 10 => vec![vec![7], vec![12], vec![255], vec![11]],
        3 => vec!["x".into(), "\u{c}".into(), "é".into(), "€".into(), "𝄞".into(), vec![0x80], vec![0xe2, 0x28, 0xa1]],
        5 => ["1.5", "-12", "0.00", "x", ""].iter().map(|s| lps(s.as_bytes())).collect(),
        7 | 14 => vec![vec![1, 2], vec![12, 0], vec![255, 255]],
        8 | 11 | 15 => vec![vec![1, 2, 3, 4], vec![12, 1, 0, 0], vec![11, 0xff, 0x80, 0xff]],
        17 => vec![vec![]],
        18 => vec![lps(b"s")],
        _ => vec![vec![1, 2, 3, 4, 5, 6, 7, 8], vec![12, 1, 0, 0, 0, 0, 0xc0, 0x80], vec![0xff; 8]],
    }
}

/// The values of the next field, the default first.
fn domain(exp: Exp, m: &Model, p: &Profile) -> Vec<Vec<u8>> {
    if let Some(v) = (p.values)(exp) {
        return v;
    }
    let pending: Vec<i32> = m.undefined_refs().collect();
    let used: Vec<i32> = m.used_ids().collect();
    let root_open = m.root > 0 && !m.has_id(m.root);
    let fresh = m.fresh_id();
    match exp {
        Exp::Tag(c) => {
            let mut v = vec![match c {
                TagCtx::Header => 0,
                TagCtx::Top | TagCtx::AfterMethod if m.announced => 16,
                TagCtx::Top | TagCtx::AfterMethod => {
                    if !pending.is_empty() || (root_open && !m.has_method) {
                        6
                    } else {
                        11
                    }
                }
                TagCtx::TopAfterLib if m.announced => 16,
                TagCtx::TopAfterLib => 5,
                TagCtx::Slot(k, _) | TagCtx::SlotAfterLib(k, _) => match k {
                    SlotKind::Str | SlotKind::StrElem => 6,
                    _ => 10,
                },
            }];
            match c {
                TagCtx::Header => v.extend([1, 11, 255]),
                TagCtx::Top | TagCtx::AfterMethod | TagCtx::TopAfterLib => {
                    v.extend(p.top_tags.iter().filter(|t| m.n_top < p.max_top || matches!(t, 11 | 21 | 22)))
                }
                TagCtx::Slot(..) | TagCtx::SlotAfterLib(..) => {
                    let deep = m.frames.len() > p.max_depth;
                    v.extend(p.slot_tags.iter().filter(|t| !(deep && matches!(t, 1..=5 | 7 | 15..=17))))
                }
            }
            uniq(v).into_iter().map(|t| vec![t]).collect()
        }
        Exp::I32(r) => {
            let v = match r {
                Role::RootId => p.roots.to_vec(),
                Role::HeaderId => vec![-1, 0, 1, i32::MIN],
                Role::Major => vec![1, 0, 2, -1, 257],
                Role::Minor => vec![0, 1, -1, 256],
                Role::TopId | Role::ArrId | Role::StrId | Role::ClassId => {
                    let first = *pending.first().unwrap_or(if root_open { &m.root } else { &fresh });
                    let mut v = vec![first];
                    v.extend(&pending);
                    v.extend([m.root, fresh]);
                    v.extend(&used);
                    v.extend([0, -1]);
                    v
                }
                Role::InlineStrId | Role::InlineClassId => {
                    let mut v = vec![fresh];
                    v.extend(&pending);
                    v.extend([m.root]);
                    v.extend(&used);
                    v.extend([0, -1, -2]);
                    v
                }
                Role::CallArrId => {
                    let mut v = vec![m.root, fresh];
                    v.extend(&pending);
                    v.extend(&used);
                    v.extend([0, -1]);
                    v
                }
                Role::MetaId => {
                    let defs: Vec<i32> = m.def_ids().collect();
                    let mut v = vec![*defs.last().unwrap_or(&1)];
                    v.extend(defs);
                    v.extend(used);
                    v.extend([fresh, 0, -1]);
                    v
                }
                Role::LibDef => {
                    let mut v = vec![(1..).find(|l| !m.libs.contains_key(l)).unwrap()];
                    v.extend(m.libs.keys());
                    v.extend([0, -1, 257]);
                    v
                }
                Role::LibUse | Role::SlotLib => {
                    let mut v: Vec<i32> = m.libs.keys().copied().collect();
                    v.extend([1, 2, 0, -1, 257]);
                    v
                }
                Role::MemberCount => vec![1, 0, 2, 3, -1],
                Role::ArrLen => vec![1, 0, 2, 3, -1],
                Role::ArgsLen => vec![1, 0, 2, -1],
                Role::Rank => vec![2, 1, 0, 3, -1],
                Role::DimLen => vec![2, 1, 0, 3, -1],
                Role::LowerBound => vec![0, 1, -1, i32::MAX, i32::MIN],
                Role::NullCount => vec![1, 2, 3, 0, 256, -1],
                Role::RefId => {
                    let mut v: Vec<i32> = used.iter().rev().copied().collect();
                    v.extend(&pending);
                    v.extend([fresh, fresh + 1, m.root, 0, -1]);
                    v
                }
                Role::Flags => vec![
                    1, 2, 4, 8, 0, 0x10, 0x20, 0x40, 0x80, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x8000, 3, 0xc, 0x30,
                    0x1804, 0x1008, 0x822, 0x2001, 0x280, 0x2800, 0x2080, 0x10000, i32::MIN,
                ],
                _ => unreachable!("{r:?}"),
            };
            uniq(v).into_iter().map(i).collect()
        }
        Exp::U8(r) => match r {
            Role::NullCount8 => [1, 2, 3, 0, 255].iter().map(|b| vec![*b]).collect(),
            Role::BinType => [1, 0, 2, 3, 4, 5, 6, 7, 8, 255].iter().map(|b| vec![*b]).collect(),
            Role::PrimCode => {
                [8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 0, 4, 19].iter().map(|b| vec![*b]).collect()
            }
            Role::ValueCode => {
                [8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 0, 4, 19].iter().map(|b| vec![*b]).collect()
            }
            Role::ArrKind => [2, 0, 1, 3, 4, 5, 6, 255].iter().map(|b| vec![*b]).collect(),
            _ => unreachable!("{r:?}"),
        },
        Exp::Str(r) => {
            let v: Vec<Vec<u8>> = match r {
                Role::ClassName => vec![b"A".to_vec(), b"B".to_vec(), b"".to_vec()],
                Role::SlotClass => vec![b"A".to_vec(), b"B".to_vec()],
                Role::LibName => vec![b"L".to_vec(), b"M".to_vec(), b"".to_vec()],
                Role::MemberName => {
                    let i = m.frames.last().map_or(0, |f| f.2);
                    vec![vec![b'm' + i as u8], format!("é{i}").into_bytes()]
                }
                Role::ObjStr => vec![b"s".to_vec(), b"".to_vec(), "€\u{c}".into(), vec![0xff]],
                _ => vec![b"n".to_vec(), b"".to_vec(), "\u{b}ü".into(), vec![0xc3]],
            };
            let mut v: Vec<Vec<u8>> = v.iter().map(|s| lps(s)).collect();
            v.push([vec![0x82, 0x80, 0x80, 0x80, 0x08], b"zz".to_vec()].concat());
            v
        }
        Exp::StrCode(_) => [18, 17, 6, 0].iter().map(|b| vec![*b]).collect(),
        Exp::Prim(t) => prim_values(t),
        Exp::Nothing => vec![],
    }
}

struct Node {
    b: Vec<u8>,
    budget: u32,
}

/// Gives the message to the implementation and returns the nodes behind it.
fn expand(th: &mut Th<'_>, p: &Profile, node: &Node, out: &mut dyn FnMut(Node)) {
    let mut m = Model::new(&node.b);
    let v = m.run();
    th.st.nodes += 1;
    match v {
        Verdict::Incomplete { exp, boundary } => {
            debug_assert!(boundary);
            th.state(m.fingerprint(exp));
            th.check_with(&node.b, &v, m.elements);
            if m.fields > p.max_fields {
                th.count("field bound reached");
                return;
            }
            let d = domain(exp, &m, p);
            let cost = if m.is_soft() { Cost::Never } else { (p.cost)(exp) };
            let n = match cost {
                Cost::Never => 1,
                Cost::Dev if node.budget == 0 => 1,
                _ => d.len(),
            };
            for (k, tok) in d.into_iter().take(n).enumerate() {
                th.st.transitions += 1;
                let mut b = Vec::with_capacity(node.b.len() + tok.len());
                b.extend_from_slice(&node.b);
                b.extend_from_slice(&tok);
                let budget = if k > 0 && cost == Cost::Dev { node.budget - 1 } else { node.budget };
                out(Node { b, budget });
            }
        }
        v => th.check_with(&node.b, &v, m.elements),
    }
}

pub fn explore(cx: &Cx, p: &Profile) {
    if !cx.wants(p.name) {
        return;
    }
    let mut th = Th::new(cx, p.name);
    let mut level = vec![Node { b: vec![], budget: p.budget }];
    let mut done = 0;
    // breadth first until there is enough work for all threads
    while level.len() < 20000 && !level.is_empty() && done < 60 {
        let mut next = vec![];
        for n in &level {
            expand(&mut th, p, n, &mut |c| next.push(c));
        }
        level = next;
        done += 1;
    }
    th.merge();
    cx.par(p.name, level.len(), |th, i| {
        let n = &level[i];
        let mut stack = vec![Node { b: n.b.clone(), budget: n.budget }];
        while let Some(n) = stack.pop() {
            if th.stopped() {
                return;
            }
            expand(th, p, &n, &mut |c| stack.push(c));
        }
    });
}
