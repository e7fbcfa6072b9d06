//! Deserialisation: what every target type has to yield for every value, and the targets to enumerate.
use crate::harness::{Scope, Th, supervised};
use crate::model::{self, Verdict};
use crate::rv::{RMsg, RObj, RVal};
use nrbf::RemotingMessage;
use serde::Deserialize;
use serde::de::{self, Visitor};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

/// What deserialising a value into a type has to do.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum C {
    /// Succeed, with the value expected.
    Must,
    /// Fail.
    Err,
    /// Fail, or succeed with the value expected.
    May,
}

fn all(i: impl Iterator<Item = C>) -> C {
    let mut r = C::Must;
    for c in i {
        match c {
            C::Err => return C::Err,
            C::May => r = C::May,
            C::Must => (),
        }
    }
    r
}

/// A value as `deserialize_any` has to present it.
pub enum View<'a> {
    Scalar(std::borrow::Cow<'a, RVal>, bool),
    Seq(&'a [RVal], bool),
    Map(&'a [(String, RVal)]),
    Null,
    Bad,
    Any,
}

const BOXED: [(&str, u8); 12] = [
    ("System.Boolean", 1),
    ("System.Byte", 2),
    ("System.Char", 3),
    ("System.Double", 6),
    ("System.Int16", 7),
    ("System.Int32", 8),
    ("System.Int64", 9),
    ("System.SByte", 10),
    ("System.Single", 11),
    ("System.UInt16", 14),
    ("System.UInt32", 15),
    ("System.UInt64", 16),
];
pub const LIST: &str = "System.Collections.Generic.List";

pub fn int(v: &RVal) -> Option<i128> {
    Some(match v {
        RVal::Byte(n) => (*n).into(),
        RVal::I8(n) => (*n).into(),
        RVal::I16(n) => (*n).into(),
        RVal::I32(n) => (*n).into(),
        RVal::I64(n) => (*n).into(),
        RVal::U16(n) => (*n).into(),
        RVal::U32(n) => (*n).into(),
        RVal::U64(n) => (*n).into(),
        _ => return None,
    })
}
fn ticks(v: &RVal) -> Option<i128> {
    match v {
        RVal::TimeSpan(n) | RVal::DateTime(n) => Some((*n).into()),
        _ => None,
    }
}

/// The member of a boxed class as the primitive the class boxes; `true` if it is one already.
fn boxed(tag: u8, m: &RVal) -> Option<(RVal, bool)> {
    let (m, sure): (RVal, bool) = match view(m) {
        View::Scalar(v, sure) => (v.into_owned(), sure && !matches!(m, RVal::Obj(_))),
        View::Any => return Some((RVal::Any, false)),
        _ => return None,
    };
    if m == RVal::Any {
        return Some((m, false));
    }
    macro_rules! conv {
        ($k:ident) => {
            match &m {
                RVal::$k(_) => Some((m.clone(), sure)),
                m => int(m).or(ticks(m)).and_then(|n| n.try_into().ok()).map(|n| (RVal::$k(n), false)),
            }
        };
    }
    match tag {
        1 => matches!(m, RVal::Bool(_)).then_some((m, sure)),
        2 => conv!(Byte),
        7 => conv!(I16),
        8 => conv!(I32),
        9 => conv!(I64),
        10 => conv!(I8),
        14 => conv!(U16),
        15 => conv!(U32),
        16 => conv!(U64),
        3 => match &m {
            RVal::Char(_) => Some((m, sure)),
            RVal::Str(s) if s.chars().count() == 1 => Some((RVal::Char(s.chars().next().unwrap()), false)),
            RVal::Dec(s) if s.chars().count() == 1 => Some((RVal::Any, false)),
            RVal::DecAny => Some((RVal::Any, false)),
            _ => None,
        },
        6 | 11 => match &m {
            RVal::F64(_) if tag == 6 => Some((m, sure)),
            RVal::F32(_) if tag == 11 => Some((m, sure)),
            RVal::F32(_) | RVal::F64(_) => Some((RVal::Any, false)),
            m if int(m).or(ticks(m)).is_some() => Some((RVal::Any, false)),
            _ => None,
        },
        _ => unreachable!(),
    }
}

pub fn view(v: &RVal) -> View<'_> {
    use std::borrow::Cow;
    match v {
        RVal::Null => View::Null,
        RVal::Any | RVal::EmptyArr => View::Any,
        RVal::DecAny => View::Scalar(Cow::Borrowed(v), false),
        RVal::Arr(a) => View::Seq(a, true),
        RVal::Obj(o) if o.lib.is_some() => View::Map(&o.members),
        RVal::Obj(o) => {
            let base = o.class.split('`').next().unwrap();
            let tick = base.len() != o.class.len();
            if let Some((_, t)) = BOXED.iter().find(|b| b.0 == base) {
                let r = match &o.members[..] {
                    [(n, m)] if n == "m_value" => boxed(*t, m),
                    _ => None,
                };
                return match r {
                    _ if tick => View::Any,
                    Some((v, sure)) => View::Scalar(Cow::Owned(v), sure),
                    None => View::Bad,
                };
            }
            if base == LIST {
                return list(o, tick);
            }
            View::Map(&o.members)
        }
        _ => View::Scalar(Cow::Borrowed(v), true),
    }
}
fn list(o: &RObj, tick: bool) -> View<'_> {
    let get = |n: &str| o.members.iter().find(|m| m.0 == n).map(|m| &m.1);
    let exact = o.members.len() == 3 && matches!(get("_version"), Some(RVal::I32(_)));
    // something else of that name: its other members would be lost
    let more = o.members.iter().any(|m| !["_items", "_size", "_version"].contains(&m.0.as_str()));
    match (get("_items"), get("_size")) {
        _ if more && tick => View::Bad,
        (Some(RVal::Arr(a)), Some(RVal::I32(n))) if *n >= 0 && *n as usize <= a.len() => {
            View::Seq(&a[..*n as usize], exact && tick)
        }
        (Some(RVal::Any | RVal::EmptyArr), _) | (_, Some(RVal::Any)) => View::Any,
        _ if tick => View::Bad,
        _ => View::Any,
    }
}

/// Deserialising a value of this shape without looking at it may fail.
fn may_be_bad(v: &RVal) -> bool {
    match view(v) {
        View::Bad | View::Any => true,
        View::Scalar(_, sure) => !sure,
        View::Seq(a, sure) => !sure || a.iter().any(may_be_bad),
        View::Map(m) => m.iter().any(|m| may_be_bad(&m.1)),
        View::Null => false,
    }
}

pub trait Tgt<'de>: Deserialize<'de> + fmt::Debug {
    /// A struct field of this type may be missing.
    const OPTIONAL: bool = false;
    fn class(v: &RVal) -> C;
    /// For values of class `Must` and `May`: is this the value?
    fn same(&self, v: &RVal) -> bool;
}

fn scalar(v: &RVal, f: impl Fn(&RVal) -> C) -> C {
    match view(v) {
        View::Any => C::May,
        View::Scalar(s, sure) => match (&*s, f(&s)) {
            (RVal::Any, _) => C::May,
            (_, C::Must) if !sure => C::May,
            (_, c) => c,
        },
        _ => C::Err,
    }
}
fn scalar_same(v: &RVal, f: impl Fn(&RVal) -> bool) -> bool {
    match view(v) {
        View::Any => true,
        View::Scalar(s, _) => matches!(*s, RVal::Any) || f(&s),
        _ => false,
    }
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Tgt<'_> for $t {
            fn class(v: &RVal) -> C {
                scalar(v, |s| {
                    if let Some(n) = int(s) {
                        if <$t>::try_from(n).is_ok() { C::Must } else { C::Err }
                    } else if let Some(n) = ticks(s) {
                        if stringify!($t) == "i64" { C::Must } else if <$t>::try_from(n).is_ok() { C::May } else { C::Err }
                    } else {
                        C::Err
                    }
                })
            }
            fn same(&self, v: &RVal) -> bool {
                scalar_same(v, |s| int(s).or(ticks(s)).and_then(|n| <$t>::try_from(n).ok()) == Some(*self))
            }
        }
    )*};
}
ints!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);

impl Tgt<'_> for f64 {
    fn class(v: &RVal) -> C {
        scalar(v, |s| match s {
            RVal::F64(_) | RVal::F32(_) => C::Must,
            s if int(s).or(ticks(s)).is_some() => C::May,
            _ => C::Err,
        })
    }
    fn same(&self, v: &RVal) -> bool {
        scalar_same(v, |s| match s {
            RVal::F64(b) => self.to_bits() == *b,
            RVal::F32(b) => {
                let w = f64::from(f32::from_bits(*b));
                self.to_bits() == w.to_bits() || w.is_nan() && self.is_nan()
            }
            s => int(s).or(ticks(s)).is_some_and(|n| *self == n as f64),
        })
    }
}
impl Tgt<'_> for f32 {
    fn class(v: &RVal) -> C {
        scalar(v, |s| match s {
            RVal::F32(_) => C::Must,
            RVal::F64(_) => C::May,
            s if int(s).or(ticks(s)).is_some() => C::May,
            _ => C::Err,
        })
    }
    fn same(&self, v: &RVal) -> bool {
        scalar_same(v, |s| match s {
            RVal::F32(b) => self.to_bits() == *b,
            RVal::F64(b) => {
                let w = f64::from_bits(*b) as f32;
                self.to_bits() == w.to_bits() || w.is_nan() && self.is_nan()
            }
            s => int(s).or(ticks(s)).is_some_and(|n| *self == n as f32),
        })
    }
}
impl Tgt<'_> for bool {
    fn class(v: &RVal) -> C {
        scalar(v, |s| if matches!(s, RVal::Bool(_)) { C::Must } else { C::Err })
    }
    fn same(&self, v: &RVal) -> bool {
        scalar_same(v, |s| *s == RVal::Bool(*self))
    }
}
fn one_char(s: &str) -> Option<char> {
    let mut c = s.chars();
    match (c.next(), c.next()) {
        (Some(c), None) => Some(c),
        _ => None,
    }
}
impl Tgt<'_> for char {
    fn class(v: &RVal) -> C {
        scalar(v, |s| match s {
            RVal::Char(_) => C::Must,
            RVal::Str(s) | RVal::Dec(s) if one_char(s).is_some() => C::May,
            RVal::DecAny => C::May,
            _ => C::Err,
        })
    }
    fn same(&self, v: &RVal) -> bool {
        scalar_same(v, |s| match s {
            RVal::Char(c) => c == self,
            RVal::Str(s) | RVal::Dec(s) => one_char(s) == Some(*self),
            RVal::DecAny => true,
            _ => false,
        })
    }
}
fn text_same(me: &str, v: &RVal) -> bool {
    scalar_same(v, |s| match s {
        RVal::Str(s) | RVal::Dec(s) => s == me,
        RVal::Char(c) => one_char(me) == Some(*c),
        RVal::DecAny => true,
        _ => false,
    })
}
impl Tgt<'_> for String {
    fn class(v: &RVal) -> C {
        scalar(v, |s| match s {
            RVal::Str(_) | RVal::Dec(_) | RVal::DecAny => C::Must,
            RVal::Char(_) => C::May,
            _ => C::Err,
        })
    }
    fn same(&self, v: &RVal) -> bool {
        text_same(self, v)
    }
}
impl<'de> Tgt<'de> for &'de str {
    fn class(v: &RVal) -> C {
        scalar(v, |s| match s {
            RVal::Str(_) => C::Must,
            RVal::Dec(_) | RVal::DecAny | RVal::Char(_) => C::May,
            _ => C::Err,
        })
    }
    fn same(&self, v: &RVal) -> bool {
        text_same(self, v)
    }
}
impl Tgt<'_> for () {
    fn class(v: &RVal) -> C {
        match view(v) {
            View::Null => C::Must,
            View::Any => C::May,
            _ => C::Err,
        }
    }
    fn same(&self, _: &RVal) -> bool {
        true
    }
}
#[derive(Debug, Deserialize)]
pub struct Unit;
impl Tgt<'_> for Unit {
    fn class(v: &RVal) -> C {
        <()>::class(v)
    }
    fn same(&self, _: &RVal) -> bool {
        true
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for Option<T> {
    const OPTIONAL: bool = true;
    fn class(v: &RVal) -> C {
        match v {
            RVal::Null => C::Must,
            // whether `Some` of a unit can come from anything but null
            v => T::class(v),
        }
    }
    fn same(&self, v: &RVal) -> bool {
        match (v, self) {
            (RVal::Any, _) => true,
            (RVal::Null, None) => true,
            (RVal::Null, _) | (_, None) => false,
            (v, Some(x)) => x.same(v),
        }
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for Box<T> {
    const OPTIONAL: bool = T::OPTIONAL;
    fn class(v: &RVal) -> C {
        T::class(v)
    }
    fn same(&self, v: &RVal) -> bool {
        (**self).same(v)
    }
}

fn seq_class(v: &RVal, n: Option<usize>, f: impl Fn(usize, &RVal) -> C) -> C {
    match view(v) {
        View::Any => C::May,
        View::Seq(a, sure) => {
            if n.is_some_and(|n| n != a.len()) {
                return C::Err;
            }
            let c = all(a.iter().enumerate().map(|(i, v)| f(i, v)));
            if c == C::Must && !sure { C::May } else { c }
        }
        _ => C::Err,
    }
}
fn seq_same(v: &RVal, n: usize, f: impl Fn(usize, &RVal) -> bool) -> bool {
    match view(v) {
        View::Any => true,
        View::Seq(a, _) => a.len() == n && a.iter().enumerate().all(|(i, v)| f(i, v)),
        _ => false,
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for Vec<T> {
    fn class(v: &RVal) -> C {
        seq_class(v, None, |_, v| T::class(v))
    }
    fn same(&self, v: &RVal) -> bool {
        seq_same(v, self.len(), |i, v| self[i].same(v))
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for std::collections::VecDeque<T> {
    fn class(v: &RVal) -> C {
        seq_class(v, None, |_, v| T::class(v))
    }
    fn same(&self, v: &RVal) -> bool {
        seq_same(v, self.len(), |i, v| self[i].same(v))
    }
}
macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<'de, T: Tgt<'de>> Tgt<'de> for [T; $n] {
            fn class(v: &RVal) -> C {
                seq_class(v, Some($n), |_, v| T::class(v))
            }
            fn same(&self, v: &RVal) -> bool {
                seq_same(v, $n, |i, v| self[i].same(v))
            }
        }
    )*};
}
arrays!(1 2 3 4 5 8);
impl<'de> Tgt<'de> for [Spy; 0] {
    fn class(v: &RVal) -> C {
        seq_class(v, Some(0), |_, v| Spy::class(v))
    }
    fn same(&self, v: &RVal) -> bool {
        seq_same(v, 0, |_, _| true)
    }
}
macro_rules! tuples {
    ($($n:literal $($i:tt $t:ident),*;)*) => {$(
        impl<'de, $($t: Tgt<'de>),*> Tgt<'de> for ($($t,)*) {
            fn class(v: &RVal) -> C {
                seq_class(v, Some($n), |i, v| match i { $($i => $t::class(v),)* _ => unreachable!() })
            }
            fn same(&self, v: &RVal) -> bool {
                seq_same(v, $n, |i, v| match i { $($i => self.$i.same(v),)* _ => unreachable!() })
            }
        }
    )*};
}
tuples! { 1 0 A; 2 0 A, 1 B; 3 0 A, 1 B, 2 D; 4 0 A, 1 B, 2 D, 3 E; }

#[derive(Debug, Deserialize)]
pub struct Pair<A, B>(A, B);
impl<'de, A: Tgt<'de>, B: Tgt<'de>> Tgt<'de> for Pair<A, B> {
    fn class(v: &RVal) -> C {
        <(A, B)>::class(v)
    }
    fn same(&self, v: &RVal) -> bool {
        seq_same(v, 2, |i, v| if i == 0 { self.0.same(v) } else { self.1.same(v) })
    }
}

fn map_class(v: &RVal, f: impl Fn(&RVal) -> C) -> C {
    match view(v) {
        View::Any => C::May,
        View::Map(m) => all(m.iter().map(|m| f(&m.1))),
        _ => C::Err,
    }
}
fn map_same<'a, T: 'a>(v: &RVal, n: usize, get: impl Fn(&str) -> Option<&'a T>, f: impl Fn(&T, &RVal) -> bool) -> bool {
    match view(v) {
        View::Any => true,
        View::Map(m) => m.len() == n && m.iter().all(|(k, v)| get(k).is_some_and(|x| f(x, v))),
        _ => false,
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for HashMap<String, T> {
    fn class(v: &RVal) -> C {
        map_class(v, T::class)
    }
    fn same(&self, v: &RVal) -> bool {
        map_same(v, self.len(), |k| self.get(k), |x, v| x.same(v))
    }
}
impl<'de, T: Tgt<'de>> Tgt<'de> for BTreeMap<&'de str, T> {
    fn class(v: &RVal) -> C {
        map_class(v, T::class)
    }
    fn same(&self, v: &RVal) -> bool {
        map_same(v, self.len(), |k| self.iter().find(|x| *x.0 == k).map(|x| x.1), |x, v| x.same(v))
    }
}

/// The members of any object, as `deserialize_struct` has to present them, and whether that is certain.
fn members(v: &RVal) -> Result<(&[(String, RVal)], bool), C> {
    match v {
        RVal::Any | RVal::EmptyArr => Err(C::May),
        // an array may fill the fields one after the other
        RVal::Arr(_) => Err(C::May),
        RVal::Obj(o) => Ok((&o.members, matches!(view(v), View::Map(_)))),
        _ => Err(C::Err),
    }
}
macro_rules! structs {
    ($(struct $s:ident<$($p:ident),*> [$deny:literal $(#[$at:meta])*] { $($f:ident $name:literal : $t:ty),* })*) => {$(
        #[derive(Debug, Deserialize)]
        $(#[$at])*
        pub struct $s<$($p),*> { $(#[serde(rename = $name)] pub $f: $t),* }
        impl<'de, $($p: Tgt<'de>),*> Tgt<'de> for $s<$($p),*> {
            fn class(v: &RVal) -> C {
                let names = [$($name),*];
                if let RVal::Arr(items) = v {
                    if items.len() < names.len() {
                        return C::Err;
                    }
                    let mut rest = items.iter();
                    let l = [C::May, $(<$t>::class(rest.next().unwrap())),*];
                    return all(l.into_iter());
                }
                let (m, sure) = match members(v) {
                    Ok(m) => m,
                    Err(c) => return c,
                };
                let mut l: Vec<C> = vec![if sure { C::Must } else { C::May }];
                $(l.push(match m.iter().find(|m| m.0 == $name) {
                    Some(m) => <$t>::class(&m.1),
                    None if <$t>::OPTIONAL => C::Must,
                    None => C::Err,
                });)*
                for (n, v) in m {
                    if !names.contains(&n.as_str()) {
                        l.push(if $deny { C::Err } else if may_be_bad(v) { C::May } else { C::Must })
                    }
                }
                all(l.into_iter())
            }
            fn same(&self, v: &RVal) -> bool {
                if let RVal::Arr(items) = v {
                    let mut rest = items.iter();
                    return $(rest.next().is_some_and(|v| self.$f.same(v)))&&*;
                }
                let Ok((m, _)) = members(v) else { return true };
                $((match m.iter().find(|m| m.0 == $name) {
                    Some(m) => self.$f.same(&m.1),
                    None => <$t>::OPTIONAL && self.$f.same(&RVal::Null),
                }))&&*
            }
        }
    )*};
}
structs! {
    struct S1<A> [false] { x "x": A }
    struct S2<A, B> [false] { x "x": A, y "y": B }
    struct S3<A, B, D> [false] { x "x": A, y "y": B, z "z": D }
    struct Deny<A, B> [true #[serde(deny_unknown_fields)]] { x "x": A, y "y": B }
    struct Priv<A> [false] { x "_items": A }
    struct Val<A> [false] { x "m_value": A }
    struct Odd<A> [false] { a "<x>k__BackingField": A, b "_x": A, c "X": A, d "m_x": A, e "x ": A, f "": A, g "x": A, h "A+x": A, i "\u{feff}x": A }
}
#[derive(Debug, Deserialize)]
pub struct Node {
    pub n: Option<Box<Node>>,
}
impl Tgt<'_> for Node {
    fn class(v: &RVal) -> C {
        let (m, sure) = match members(v) {
            Ok(m) => m,
            Err(c) => return c,
        };
        let mut l = vec![if sure { C::Must } else { C::May }];
        for (n, v) in m {
            l.push(if n == "n" { <Option<Box<Node>>>::class(v) } else if may_be_bad(v) { C::May } else { C::Must })
        }
        all(l.into_iter())
    }
    fn same(&self, v: &RVal) -> bool {
        let Ok((m, _)) = members(v) else { return true };
        self.n.same(m.iter().find(|m| m.0 == "n").map_or(&RVal::Null, |m| &m.1))
    }
}
#[derive(Debug, Deserialize)]
pub struct Flat {
    x: i32,
    #[serde(flatten)]
    rest: HashMap<String, Spy>,
}
impl Tgt<'_> for Flat {
    fn class(v: &RVal) -> C {
        match view(v) {
            View::Any => C::May,
            View::Map(m) => {
                let x = m.iter().find(|m| m.0 == "x").map_or(C::Err, |m| i32::class(&m.1));
                all([x].into_iter().chain(m.iter().filter(|m| m.0 != "x").map(|m| Spy::class(&m.1))))
            }
            _ => C::Err,
        }
    }
    fn same(&self, v: &RVal) -> bool {
        match view(v) {
            View::Map(m) => {
                m.len() == self.rest.len() + 1
                    && m.iter().all(|(k, v)| if k == "x" { self.x.same(v) } else { self.rest.get(k).is_some_and(|s| s.same(v)) })
            }
            _ => true,
        }
    }
}
/// Discards the value.
#[derive(Debug)]
pub struct Skip;
impl<'de> Deserialize<'de> for Skip {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_ignored_any(de::IgnoredAny).map(|_| Skip)
    }
}
impl Tgt<'_> for Skip {
    fn class(v: &RVal) -> C {
        if may_be_bad(v) { C::May } else { C::Must }
    }
    fn same(&self, _: &RVal) -> bool {
        true
    }
}

/// Records what the value presents itself as.
#[derive(Debug, Clone, PartialEq)]
pub enum Spy {
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Null,
    Seq(Vec<Spy>),
    Map(Vec<(String, Spy)>),
}
struct SpyVisitor;
impl<'de> Visitor<'de> for SpyVisitor {
    type Value = Spy;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Spy, E> {
        Ok(Spy::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Spy, E> {
        Ok(Spy::Int(v.into()))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Spy, E> {
        Ok(Spy::Int(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Spy, E> {
        Ok(Spy::Int(v.into()))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Spy, E> {
        Ok(Spy::F32(v.to_bits()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Spy, E> {
        Ok(Spy::F64(v.to_bits()))
    }
    fn visit_char<E>(self, v: char) -> Result<Spy, E> {
        Ok(Spy::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Spy, E> {
        Ok(Spy::Str(v.into()))
    }
    fn visit_none<E>(self) -> Result<Spy, E> {
        Ok(Spy::Null)
    }
    fn visit_unit<E>(self) -> Result<Spy, E> {
        Ok(Spy::Null)
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Spy, D::Error> {
        d.deserialize_any(SpyVisitor)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Spy, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(Spy::Seq(v))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Spy, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry::<String, Spy>()? {
            v.push(x)
        }
        // members come in no particular order
        v.sort_by(|x, y| x.0.cmp(&y.0));
        Ok(Spy::Map(v))
    }
}
impl<'de> Deserialize<'de> for Spy {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Spy, D::Error> {
        d.deserialize_any(SpyVisitor)
    }
}
impl Tgt<'_> for Spy {
    fn class(v: &RVal) -> C {
        match view(v) {
            View::Any => C::May,
            View::Bad => C::Err,
            View::Null => C::Must,
            View::Scalar(_, sure) => if sure { C::Must } else { C::May },
            View::Seq(..) => seq_class(v, None, |_, v| Spy::class(v)),
            View::Map(_) => map_class(v, Spy::class),
        }
    }
    fn same(&self, v: &RVal) -> bool {
        match (view(v), self) {
            (View::Any, _) => true,
            (View::Scalar(s, _), me) => match (&*s, me) {
                (RVal::Any, _) => true,
                (RVal::Bool(a), Spy::Bool(b)) => a == b,
                (RVal::Char(a), Spy::Char(b)) => a == b,
                (RVal::Str(a) | RVal::Dec(a), Spy::Str(b)) => a == b,
                (RVal::DecAny, Spy::Str(_)) => true,
                (RVal::F64(a), Spy::F64(b)) => a == b,
                (RVal::F32(a), Spy::F32(b)) => a == b,
                // through a type that stores every float as f64
                (RVal::F32(a), Spy::F64(b)) => f64::from(f32::from_bits(*a)).to_bits() == *b,
                (s, Spy::Int(b)) => int(s).or(ticks(s)) == Some(*b),
                _ => false,
            },
            (View::Null, Spy::Null) => true,
            (View::Seq(..), Spy::Seq(a)) => seq_same(v, a.len(), |i, v| a[i].same(v)),
            (View::Map(_), Spy::Map(a)) => map_same(v, a.len(), |k| a.iter().find(|x| x.0 == k).map(|x| &x.1), |x, v| x.same(v)),
            _ => false,
        }
    }
}

/// How deserialising into `T` ended, as a label, or what is wrong with it.
fn judge<'de, T: Tgt<'de>>(r: Result<T, String>, v: Option<&RVal>) -> Result<&'static str, String> {
    let name = || std::any::type_name::<T>().replace("alloc::", "").replace("std::", "").replace("core::", "");
    let Some(v) = v else {
        return match r {
            Ok(x) => Err(format!("{}: {x:?} from bytes that hold no value", name())),
            Err(_) => Ok("deserialising what holds no value fails"),
        };
    };
    match (T::class(v), r) {
        (C::Err, Ok(x)) => Err(format!("{}: {x:?} from {v:?}, which must fail", name())),
        (C::Must, Err(e)) => Err(format!("{}: failed from {v:?}: {e}", name())),
        (_, Ok(x)) if !x.same(v) => Err(format!("{}: {x:?} from {v:?}", name())),
        (_, Ok(_)) => Ok("deserialised to the value"),
        (_, Err(_)) => Ok("deserialising fails as it has to"),
    }
}
fn slice<'de, T: Tgt<'de>>(b: &'de [u8], v: Option<&RVal>) -> Result<&'static str, String> {
    judge(nrbf::from_slice::<T>(b).map_err(|e| e.to_string()), v)
}
fn direct<'de, T: Tgt<'de>>(m: &RemotingMessage<'de>, v: Option<&RVal>) -> Result<&'static str, String> {
    judge(T::deserialize(m.clone()).map_err(|e| e.to_string()), v)
}

/// Targets, in groups. `$m!(type)` for each.
macro_rules! group {
    (scalars $m:ident) => {
        $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(i128); $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128);
        $m!(f32); $m!(f64); $m!(bool); $m!(char); $m!(String); $m!(&str); $m!(()); $m!(Unit);
        $m!(Option<i32>); $m!(Option<String>); $m!(Option<()>); $m!(Vec<i32>); $m!(HashMap<String, i32>); $m!(S1<i32>); $m!((i32,)); $m!(Spy); $m!(Skip); $m!(Option<Spy>);
    };
    (in_vec $m:ident) => {
        $m!((i8,)); $m!((i16,)); $m!((i32,)); $m!((i64,)); $m!((i128,)); $m!((u8,)); $m!((u16,)); $m!((u32,)); $m!((u64,)); $m!((u128,));
        $m!((f32,)); $m!((f64,)); $m!((bool,)); $m!((char,)); $m!((String,)); $m!((&str,)); $m!(((),)); $m!(Vec<Option<i64>>); $m!(Spy);
    };
    (in_map $m:ident) => {
        $m!(S1<i8>); $m!(S1<i16>); $m!(S1<i32>); $m!(S1<i64>); $m!(S1<u8>); $m!(S1<u16>); $m!(S1<u32>); $m!(S1<u64>);
        $m!(S1<f32>); $m!(S1<f64>); $m!(S1<bool>); $m!(S1<char>); $m!(S1<String>); $m!(S1<&str>); $m!(S1<()>); $m!(S1<Option<i64>>); $m!(HashMap<String, i32>); $m!(Spy);
    };
    (seqs $m:ident) => {
        $m!(Vec<i32>); $m!(Vec<u8>); $m!(Vec<String>); $m!(Vec<&str>); $m!(Vec<Option<i32>>); $m!(Vec<Option<&str>>); $m!(Vec<()>); $m!(Vec<Spy>); $m!(Vec<bool>); $m!(Vec<f64>);
        $m!(std::collections::VecDeque<i64>); $m!(Vec<Vec<i32>>); $m!(Vec<Vec<Spy>>); $m!(Vec<(i32, i32)>); $m!(Vec<[i32; 2]>); $m!(Vec<S1<i32>>); $m!(Vec<Option<Vec<i32>>>); $m!(Vec<HashMap<String, Spy>>);
        $m!([Spy; 0]); $m!([Spy; 1]); $m!([Spy; 2]); $m!([Spy; 3]); $m!([Spy; 4]); $m!([Spy; 5]); $m!([i32; 1]); $m!([i32; 2]); $m!([i32; 3]); $m!([i32; 4]); $m!([i32; 8]); $m!([Option<&str>; 2]);
        $m!((i32,)); $m!((i32, i32)); $m!((Spy, Spy)); $m!((i32, String)); $m!((Spy, Spy, Spy)); $m!((i32, Option<i32>, i32)); $m!((Spy, Spy, Spy, Spy)); $m!(((i32, i32), Vec<i32>)); $m!(Pair<i32, i32>); $m!(Pair<Spy, Option<Spy>>);
        $m!(Spy); $m!(Option<Vec<Spy>>); $m!(Option<(Spy, Spy)>); $m!(()); $m!(i32); $m!(String); $m!(HashMap<String, Spy>); $m!(Skip); $m!(Box<[i64; 2]>);
    };
    (maps $m:ident) => {
        $m!(S1<i32>); $m!(S1<Option<i32>>); $m!(S1<Spy>); $m!(S1<()>); $m!(S1<Option<()>>); $m!(S1<String>); $m!(S1<&str>); $m!(S1<Vec<i32>>); $m!(S1<Option<Vec<Spy>>>); $m!(S1<S1<i32>>); $m!(S1<Option<S1<Spy>>>);
        $m!(S2<i32, i32>); $m!(S2<i32, String>); $m!(S2<Spy, Spy>); $m!(S2<Option<Spy>, Option<Spy>>); $m!(S2<Spy, Option<i64>>); $m!(S2<(), Spy>); $m!(S3<Spy, Spy, Spy>); $m!(S3<Option<i32>, Option<&str>, Option<bool>>); $m!(S3<i32, Skip, Spy>);
        $m!(Deny<i32, i32>); $m!(Deny<Spy, Option<Spy>>); $m!(Deny<Option<Spy>, Option<Spy>>); $m!(Flat); $m!(Node);
        $m!(HashMap<String, i32>); $m!(HashMap<String, Spy>); $m!(HashMap<String, Option<i32>>); $m!(HashMap<String, ()>); $m!(BTreeMap<&str, Spy>); $m!(HashMap<String, HashMap<String, Spy>>); $m!(BTreeMap<&str, Option<S1<i32>>>);
        $m!(Spy); $m!(Option<Spy>); $m!(Option<S1<Spy>>); $m!(Option<Option<S2<Spy, Spy>>>); $m!(Box<S1<Spy>>); $m!(()); $m!(Unit); $m!(Option<()>); $m!(Skip); $m!(i32); $m!(bool); $m!(String); $m!(&str); $m!(char); $m!(Vec<Spy>); $m!((Spy,)); $m!((Spy, Spy));
    };
    (nulls $m:ident) => {
        $m!(S1<()>); $m!(S1<Option<()>>); $m!(S1<Option<i32>>); $m!(S1<Option<Option<i32>>>); $m!(S1<i32>); $m!(S1<bool>); $m!(S1<String>); $m!(S1<&str>); $m!(S1<f64>); $m!(S1<char>); $m!(S1<Vec<Spy>>); $m!(S1<HashMap<String, Spy>>); $m!(S1<S1<Spy>>); $m!(S1<Option<S1<Spy>>>); $m!(S1<Option<Vec<Option<Spy>>>>); $m!(S1<(Spy,)>); $m!(S1<[Spy; 0]>); $m!(S1<Node>); $m!(S1<Unit>); $m!(S1<Option<String>>); $m!(S1<Box<Option<Spy>>>);
        $m!(Vec<()>); $m!(Vec<Option<()>>); $m!(Vec<Option<i32>>); $m!(Vec<i32>); $m!(Vec<String>); $m!(Vec<Option<String>>); $m!(Vec<Option<Option<&str>>>); $m!(Vec<Option<Vec<Option<i32>>>>); $m!(Vec<Vec<()>>); $m!(Vec<S1<Spy>>); $m!(Vec<Option<S1<Option<Spy>>>>); $m!((Option<Spy>, Option<Spy>)); $m!((Spy, ())); $m!(((), ())); $m!([Option<i32>; 3]);
        $m!(HashMap<String, ()>); $m!(HashMap<String, Option<()>>); $m!(HashMap<String, Option<Spy>>); $m!(HashMap<String, Spy>); $m!(BTreeMap<&str, Option<HashMap<String, Option<Spy>>>>); $m!(S2<Option<Spy>, ()>); $m!(S2<(), Option<i32>>);
        $m!(()); $m!(Unit); $m!(Option<()>); $m!(Option<Spy>); $m!(Option<Option<Spy>>); $m!(Option<i32>); $m!(Option<&str>); $m!(Option<Vec<Option<Spy>>>); $m!(Option<HashMap<String, Option<Spy>>>); $m!(Option<S1<Option<Spy>>>); $m!(Option<Node>); $m!(Spy); $m!(Skip);
    };
    (few $m:ident) => {
        $m!(Spy); $m!(i64); $m!(Option<Spy>); $m!(Vec<Spy>); $m!(Vec<Option<i32>>); $m!((Spy, Spy)); $m!(HashMap<String, Spy>); $m!(S1<Option<i32>>); $m!(S2<Spy, Spy>); $m!(()); $m!(String); $m!(bool);
    };
    (names $m:ident) => {
        $m!(Odd<Option<Spy>>); $m!(Odd<Option<i32>>); $m!(Val<Spy>); $m!(Priv<Option<Spy>>); $m!(S1<Spy>); $m!(S1<Option<Spy>>);
        $m!(HashMap<String, Spy>); $m!(HashMap<String, Option<i32>>); $m!(BTreeMap<&str, Spy>); $m!(Spy); $m!(Option<Spy>); $m!(Flat); $m!(i32); $m!(Vec<Spy>); $m!(Vec<i32>); $m!((Spy,)); $m!(bool); $m!(String); $m!(()); $m!(Skip);
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Group {
    Scalars,
    InVec,
    InMap,
    Seqs,
    Maps,
    Nulls,
    Few,
    Names,
}

macro_rules! dispatch {
    ($g:expr, $m:ident) => {
        match $g {
            Group::Scalars => { group!(scalars $m); }
            Group::InVec => { group!(in_vec $m); }
            Group::InMap => { group!(in_map $m); }
            Group::Seqs => { group!(seqs $m); }
            Group::Maps => { group!(maps $m); }
            Group::Nulls => { group!(nulls $m); }
            Group::Few => { group!(few $m); }
            Group::Names => { group!(names $m); }
        }
    };
}

/// All targets of the groups on these bytes; counts the outcomes. With `scope_all` false only panics count.
pub fn evaluate(groups: &[Group], b: &[u8], verdict: &Verdict, sub: Option<usize>, out: &mut BTreeMap<&'static str, u64>) -> Vec<String> {
    let any = RVal::Any;
    let v = match verdict {
        // a lenient message may be rejected: then all targets have to fail
        Verdict::Accept { msg, lenient } => {
            if lenient.is_some() && RemotingMessage::parse(b).is_err() {
                None
            } else {
                match msg {
                    RMsg::Value(v) => Some(v),
                    _ => None,
                }
            }
        }
        Verdict::Unspec(_) | Verdict::Huge => Some(&any),
        _ => None,
    };
    let mut bad = vec![];
    let mut note = |r: Result<&'static str, String>| match r {
        Ok(o) => *out.entry(o).or_default() += 1,
        Err(e) => bad.push(e),
    };
    if matches!(verdict, Verdict::Huge) {
        return bad;
    }
    if let Some(k) = sub {
        // the k-th item of the root, as a message of its own
        let Ok(RemotingMessage::Value(nrbf::Value::Array(a))) = RemotingMessage::parse(b) else { return bad };
        let Some(RVal::Arr(w)) = v else { return bad };
        if k >= a.len() || k >= w.len() {
            return bad;
        }
        let m = RemotingMessage::Value(a[k].clone());
        let v = Some(&w[k]);
        macro_rules! go { ($t:ty) => { note(direct::<$t>(&m, v)) }; }
        for g in groups {
            dispatch!(g, go);
        }
        return bad;
    }
    macro_rules! go { ($t:ty) => { note(slice::<$t>(b, v)) }; }
    for g in groups {
        dispatch!(g, go);
    }
    bad
}

pub fn group_names(groups: &[Group], sub: Option<usize>) -> String {
    let g: Vec<String> = groups.iter().map(|g| format!("{g:?}")).collect();
    format!("serde:{}:{}", g.join("+"), sub.map_or("-".into(), |s| s.to_string()))
}
pub fn parse_group_names(s: &str) -> (Vec<Group>, Option<usize>) {
    let mut p = s.split(':').skip(1);
    let g = p.next().unwrap().split('+').map(|g| [Group::Scalars, Group::InVec, Group::InMap, Group::Seqs, Group::Maps, Group::Nulls, Group::Few].into_iter().find(|x| format!("{x:?}") == g).unwrap()).collect();
    (g, p.next().unwrap().parse().ok())
}

/// As a function that replays can call, too.
pub fn run(label: &str, groups: &[Group], b: &[u8], verdict: &Verdict, sub: Option<usize>, out: &mut BTreeMap<&'static str, u64>) -> Vec<String> {
    let counts = !matches!(verdict, Verdict::Unspec(_) | Verdict::Huge);
    if crate::harness::SKIP.get().is_some_and(|s| s.contains(b)) {
        return vec![];
    }
    match supervised(if counts { label } else { crate::harness::OUT_OF_SCOPE }, b, || evaluate(groups, b, verdict, sub, out)).0 {
        Ok(bad) => bad,
        Err(_) if !counts => vec![],
        Err(p) => vec![format!("panicked: {p}")],
    }
}

impl Th<'_> {
    pub fn serde(&mut self, groups: &[Group], b: &[u8]) {
        self.serde_at(groups, b, None)
    }
    pub fn serde_at(&mut self, groups: &[Group], b: &[u8], sub: Option<usize>) {
        if self.scope == Scope::Agree {
            return self.check(b);
        }
        let mut m = model::Model::new(b);
        let v = m.run();
        self.st.nodes += 1;
        self.st.transitions += u64::from(m.fields);
        let exp = match v {
            Verdict::Incomplete { exp, .. } => exp,
            _ => model::Exp::Nothing,
        };
        self.state(m.fingerprint(exp));
        self.serde_with(groups, b, &v, sub)
    }
    pub fn serde_with(&mut self, groups: &[Group], b: &[u8], v: &Verdict, sub: Option<usize>) {
        match v {
            Verdict::Accept { .. } => {
                if self.st.accepts < 2 {
                    self.sample("deserialised", b)
                }
                self.st.accepts += 1
            }
            Verdict::Unspec(_) | Verdict::Huge => self.st.unspec += 1,
            _ => self.st.rejects += 1,
        }
        let mut out = BTreeMap::new();
        let bad = run(self.suite, groups, b, v, sub, &mut out);
        for (k, n) in out {
            self.st.evals += n;
            *self.outcomes.entry(k).or_default() += n;
        }
        for d in bad.into_iter().take(3) {
            self.violation(group_names(groups, sub), b, d)
        }
    }
}

/// Deserialises a parsed message into many types, for panics only.
/// Deserialises from the bytes and from the parsed message: both have to end alike, and as the model's value says.
pub fn agree<'a>(b: &'a [u8], r: &Result<RemotingMessage<'a>, String>, v: &Verdict) -> Result<(), String> {
    let want = match v {
        Verdict::Accept { msg: RMsg::Value(v), .. } if r.is_ok() => Some(v),
        _ => None,
    };
    macro_rules! same {
        ($t:ty) => {{
            let name = std::any::type_name::<$t>();
            let x = nrbf::from_slice::<$t>(b).map_err(|e| e.to_string());
            match r {
                Ok(m) => {
                    let y = <$t>::deserialize(m.clone()).map_err(|e| e.to_string());
                    let shown = |r: &Result<$t, String>| r.as_ref().map(|x| format!("{x:?}")).map_err(|_| ());
                    if shown(&x) != shown(&y) {
                        return Err(format!("{name}: {x:?} from the bytes, {y:?} from the message they parse to"));
                    }
                    if !matches!(m, RemotingMessage::Value(_)) && x.is_ok() {
                        return Err(format!("{name}: {x:?} from a method call or return"));
                    }
                }
                Err(e) => {
                    if let Ok(x) = &x {
                        return Err(format!("{name}: {x:?} from bytes that do not parse ({e})"));
                    }
                }
            }
            x
        }};
    }
    macro_rules! go {
        ($t:ty) => {
            let x = same!($t);
            if want.is_some() {
                judge(x, want)?;
            }
        };
    }
    go!(Spy);
    go!(Skip);
    go!(Option<Spy>);
    if r.is_ok() {
        go!(i64);
        go!(f64);
        go!(bool);
        go!(char);
        go!(String);
        go!(());
        go!(Vec<Spy>);
        go!(Vec<Option<i32>>);
        go!((Spy, Spy));
        go!(BTreeMap<&str, Spy>);
        go!(S1<Option<i32>>);
        go!(S2<Spy, Spy>);
        go!(Option<()>);
        go!(Unit);
        go!(&str);
        go!((Spy,));
        go!([Spy; 3]);
        go!(Option<S1<Spy>>);
        go!(S3<Option<i32>, Option<&str>, Option<bool>>);
        let _ = same!(En);
        let _ = same!(Untagged);
    }
    Ok(())
}
pub fn exercise(m: &RemotingMessage<'_>) {
    macro_rules! go { ($t:ty) => { let _ = <$t>::deserialize(m.clone()); }; }
    group!(few go);
    group!(scalars go);
    go!(Vec<Vec<i32>>);
    go!([Spy; 3]);
    go!(Flat);
    go!(Node);
    go!(New);
    go!(En);
    go!(Untagged);
    go!(Vec<New>);
    go!(HashMap<String, En>);
}
#[derive(Debug, Deserialize)]
#[allow(dead_code)]
pub struct New(i32);
#[derive(Debug, Deserialize)]
#[allow(dead_code)]
pub enum En {
    A,
    B(i32),
    #[serde(rename = "x")]
    X { y: i32 },
}
#[derive(Debug, Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
pub enum Untagged {
    I(i64),
    F(f64),
    S(String),
    L(Vec<Untagged>),
    M(BTreeMap<String, Untagged>),
    N(()),
}
