//! Reference model of the .NET Remoting Binary Format (MS-NRBF), written from the specification.
//!
//! The model is a deterministic reader: fed with bytes it either asks for another field (`Incomplete`,
//! naming the kind of field it expects and its abstract state), or decides that no continuation can be a
//! valid message (`Reject`), or yields the meaning of the complete message (`Accept`). It works in two
//! phases (records first, then the object graph) and shares no code with the implementation.
//!
//! `Accept { lenient: Some(_) }` means: if the implementation accepts, it has to yield exactly this value,
//! but rejecting is fine as well (a point the stated properties leave open, or a known finding).
//! `Unspec` means that the properties say nothing, except that parsing must not crash.
use crate::rv::{RMsg, RObj, RVal};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub const KF_SHARE: &str = "KF-SHARE";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    RootId,
    HeaderId,
    Major,
    Minor,
    TopId,
    ArrId,
    StrId,
    InlineStrId,
    ClassId,
    InlineClassId,
    CallArrId,
    MetaId,
    LibDef,
    LibUse,
    SlotLib,
    MemberCount,
    ArrLen,
    Rank,
    DimLen,
    LowerBound,
    NullCount,
    NullCount8,
    RefId,
    Flags,
    ArgsLen,
    BinType,
    PrimCode,
    ArrKind,
    ValueCode,
    ClassName,
    MemberName,
    LibName,
    SlotClass,
    ObjStr,
    MethodName,
    TypeName,
    Context,
    ArgStr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TagCtx {
    Header,
    Top,
    TopAfterLib,
    AfterMethod,
    /// A member or element slot; `true` if it is an array element.
    Slot(SlotKind, bool),
    SlotAfterLib(SlotKind, bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SlotKind {
    Any,
    Str,
    StrElem,
    Sys,
    Class,
    ObjArr,
    StrArr,
    PrimArr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Exp {
    Tag(TagCtx),
    I32(Role),
    U8(Role),
    Str(Role),
    StrCode(Role),
    Prim(u8),
    Nothing,
}

#[derive(Debug)]
enum Stop {
    Incomplete(Exp, usize),
    Reject(&'static str),
    Unspec(&'static str),
    Huge,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub enum Verdict {
    Accept { msg: RMsg, lenient: Option<&'static str> },
    Reject(&'static str),
    Unspec(&'static str),
    /// So large that it must not be parsed (known finding KF-NULLBOMB).
    Huge,
    Incomplete { exp: Exp, boundary: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Slot {
    Any,
    Prim(u8),
    Str,
    StrElem,
    Sys(String),
    Class(String, i32),
    ObjArr,
    StrArr,
    PrimArr(u8),
}

impl Slot {
    fn kind(&self) -> SlotKind {
        match self {
            Slot::Any | Slot::Prim(_) => SlotKind::Any,
            Slot::Str => SlotKind::Str,
            Slot::StrElem => SlotKind::StrElem,
            Slot::Sys(_) => SlotKind::Sys,
            Slot::Class(..) => SlotKind::Class,
            Slot::ObjArr => SlotKind::ObjArr,
            Slot::StrArr => SlotKind::StrArr,
            Slot::PrimArr(_) => SlotKind::PrimArr,
        }
    }
}

#[derive(Debug)]
struct ClassDef {
    name: String,
    lib: Option<(i32, Option<String>)>,
    members: Vec<String>,
    slots: Option<Vec<Slot>>,
}

#[derive(Clone, Debug)]
enum Raw {
    Val(RVal),
    Null,
    Ref(i32),
    Obj(Rc<RawObj>),
}

#[derive(Debug)]
struct RawObj {
    id: i32,
    def: Rc<ClassDef>,
    members: Vec<Raw>,
}

#[derive(Debug)]
struct RawArr {
    elems: Vec<Raw>,
    dims: Vec<usize>,
}

#[derive(Clone, Debug)]
enum Ent {
    TopObj(Rc<RawObj>),
    TopArr(Rc<RawArr>),
    TopStr(String),
    InlineStr(String),
    InlineObj(Rc<RawObj>),
    CallArr,
    /// Id is taken, content still being read.
    Open,
}

struct Method {
    flags: u32,
    is_call: bool,
    name: String,
    ty: String,
    ctx: Option<String>,
    args: Option<Vec<RVal>>,
    ret: Option<RVal>,
    call_array: Option<Rc<RawArr>>,
}

pub struct Model<'a> {
    b: &'a [u8],
    pos: usize,
    pub root: i32,
    pub libs: BTreeMap<i32, String>,
    defs: BTreeMap<i32, Rc<ClassDef>>,
    ids: BTreeMap<i32, Ent>,
    pub refs: BTreeSet<i32>,
    typed_refs: Vec<(Slot, i32)>,
    pending_libs: Vec<i32>,
    lenient: Option<&'static str>,
    unspec: Option<&'static str>,
    pub frames: Vec<(u8, u32, u32)>,
    pub has_method: bool,
    pub n_top: u32,
    pub fields: u32,
    pub elements: usize,
    /// The first violation, after which reading went on in the most plausible way.
    soft: Option<&'static str>,
    /// A method announced a call array which has not been read yet.
    pub announced: bool,
}

pub const F_NO_ARGS: u32 = 1;
pub const F_ARGS_INLINE: u32 = 2;
pub const F_ARGS_IS_ARRAY: u32 = 4;
pub const F_ARGS_IN_ARRAY: u32 = 8;
pub const F_CTX_INLINE: u32 = 0x20;
pub const F_SIG: u32 = 0x80;
pub const F_RET_INLINE: u32 = 0x800;
pub const F_RET_IN_ARRAY: u32 = 0x1000;
pub const F_EXC: u32 = 0x2000;

/// [MS-NRBF] 2.2.1.1: at most one flag per category, and the exclusive categories.
pub fn flags_ok(f: u32) -> bool {
    let args = (f & 0xf).count_ones();
    let ctx = (f & 0x70).count_ones();
    let ret = (f & 0x1e00).count_ones();
    let sig = f & F_SIG != 0;
    let exc = f & F_EXC != 0;
    if args > 1 || ctx > 1 || ret > 1 {
        return false;
    }
    if exc && (args == 1 || ret == 1 || sig) {
        return false;
    }
    !(ret == 1 && sig)
}

/// `Some(n)` if `n` bytes of valid UTF-8 encode the first character.
fn char_len(first: u8) -> Option<usize> {
    match first {
        0..=0x7f => Some(1),
        0xc2..=0xdf => Some(2),
        0xe0..=0xef => Some(3),
        0xf0..=0xf4 => Some(4),
        _ => None,
    }
}

pub fn prim_size(t: u8) -> Option<usize> {
    Some(match t {
        1 | 2 | 10 => 1,
        7 | 14 => 2,
        8 | 11 | 15 => 4,
        6 | 9 | 12 | 13 | 16 => 8,
        _ => return None,
    })
}

pub fn valid_prim(t: u8) -> bool {
    (1..=18).contains(&t) && t != 4
}

pub fn canonical_decimal(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (int, frac) = match t.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (t, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if !digits(int) || frac.is_some_and(|f| !digits(f)) {
        return false;
    }
    if int.len() > 1 && int.starts_with('0') {
        return false;
    }
    // a decimal has 96 bits and at most 28 places
    let frac = frac.unwrap_or("");
    if frac.len() > 28 || int.len() > 29 || !format!("{int}{frac}").parse::<u128>().is_ok_and(|m| m < 1 << 96) {
        return false;
    }
    // a negative zero has no sign in .NET's text form
    !(s.starts_with('-') && t.bytes().all(|b| b == b'0' || b == b'.'))
}

/// Texts which cannot be a number in any notation.
pub fn hopeless_decimal(s: &str) -> bool {
    !s.bytes().any(|b| b.is_ascii_digit())
        || s.bytes().any(|b| !(b.is_ascii_digit() || matches!(b, b'+' | b'-' | b'.' | b'_' | b'e' | b'E' | b',' | b' ')))
}

/// Null runs may supply any number of elements: so many more than there are bytes, and no further.
const MAX_ELEMENTS: usize = 1 << 20;

impl<'a> Model<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Model {
            b,
            pos: 0,
            root: 0,
            libs: BTreeMap::new(),
            defs: BTreeMap::new(),
            ids: BTreeMap::new(),
            refs: BTreeSet::new(),
            typed_refs: vec![],
            pending_libs: vec![],
            lenient: None,
            unspec: None,
            frames: vec![],
            has_method: false,
            n_top: 0,
            fields: 0,
            elements: 0,
            soft: None,
            announced: false,
        }
    }

    pub fn used_ids(&self) -> impl Iterator<Item = i32> + '_ {
        self.ids.keys().copied()
    }
    pub fn has_id(&self, id: i32) -> bool {
        self.ids.contains_key(&id)
    }
    pub fn def_ids(&self) -> impl Iterator<Item = i32> + '_ {
        self.defs.keys().copied()
    }
    pub fn undefined_refs(&self) -> impl Iterator<Item = i32> + '_ {
        self.refs.iter().copied().filter(|r| !self.ids.contains_key(r))
    }
    pub fn fresh_id(&self) -> i32 {
        (1..).find(|i| !self.ids.contains_key(i) && !self.refs.contains(i) && *i != self.root).unwrap()
    }

    /// The message is already known to be invalid.
    pub fn is_soft(&self) -> bool {
        self.soft.is_some()
    }
    /// Names the violation and goes on reading, so that complete invalid messages can be built.
    fn soft(&mut self, why: &'static str) {
        if self.soft.is_none() {
            self.soft = Some(why);
        }
    }

    /// Hash of the abstract state: grammar position, tables and the expected field.
    pub fn fingerprint(&self, exp: Exp) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.frames.hash(&mut h);
        exp.hash(&mut h);
        self.root.hash(&mut h);
        for (k, v) in &self.libs {
            k.hash(&mut h);
            v.hash(&mut h);
        }
        for (k, v) in &self.defs {
            k.hash(&mut h);
            v.members.len().hash(&mut h);
        }
        for (k, e) in &self.ids {
            k.hash(&mut h);
            std::mem::discriminant(e).hash(&mut h);
        }
        self.refs.hash(&mut h);
        self.has_method.hash(&mut h);
        h.finish()
    }

    fn flag(&mut self, why: &'static str) {
        if self.lenient.is_none() {
            self.lenient = Some(why);
        }
    }

    // ---- fields ----
    fn take(&mut self, n: usize, exp: Exp, start: usize) -> R<&'a [u8]> {
        if self.b.len() - self.pos < n {
            return Err(Stop::Incomplete(exp, start));
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn tag(&mut self, c: TagCtx) -> R<u8> {
        self.fields += 1;
        let p = self.pos;
        Ok(self.take(1, Exp::Tag(c), p)?[0])
    }
    fn u8(&mut self, r: Role) -> R<u8> {
        self.fields += 1;
        let p = self.pos;
        Ok(self.take(1, Exp::U8(r), p)?[0])
    }
    fn i32(&mut self, r: Role) -> R<i32> {
        self.fields += 1;
        let p = self.pos;
        Ok(i32::from_le_bytes(self.take(4, Exp::I32(r), p)?.try_into().unwrap()))
    }
    fn lps(&mut self, exp: Exp) -> R<String> {
        self.fields += 1;
        let start = self.pos;
        let mut len = 0u64;
        for i in 0..5 {
            let b = self.take(1, exp, start)?[0];
            if i == 4 && b & 0xf8 != 0 {
                self.soft("string length prefix exceeds the maximum");
                len |= u64::from(b & 7) << 28;
                break;
            }
            len |= u64::from(b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                break;
            }
        }
        let bytes = self.take(len as usize, exp, start)?;
        match std::str::from_utf8(bytes) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => {
                self.soft("string is not UTF-8");
                Ok(String::from_utf8_lossy(bytes).into_owned())
            }
        }
    }
    fn str(&mut self, r: Role) -> R<String> {
        self.lps(Exp::Str(r))
    }
    fn prim(&mut self, t: u8) -> R<RVal> {
        let exp = Exp::Prim(t);
        if t == 5 {
            let s = self.lps(exp)?;
            if canonical_decimal(&s) {
                return Ok(RVal::Dec(s));
            }
            if hopeless_decimal(&s) {
                self.soft("not a decimal");
                return Ok(RVal::DecAny);
            }
            self.flag("unusual decimal");
            return Ok(RVal::DecAny);
        }
        if t == 17 {
            return Ok(RVal::Null);
        }
        if t == 18 {
            return Ok(RVal::Str(self.lps(exp)?));
        }
        self.fields += 1;
        let start = self.pos;
        if t == 3 {
            let first = self.take(1, exp, start)?[0];
            let Some(n) = char_len(first) else {
                self.soft("char is not UTF-8");
                return Ok(RVal::Char('?'));
            };
            if self.b.len() - start < n {
                return Err(Stop::Incomplete(exp, start));
            }
            self.take(n - 1, exp, start)?;
            return match std::str::from_utf8(&self.b[start..start + n]) {
                Ok(s) => Ok(RVal::Char(s.chars().next().unwrap())),
                Err(_) => {
                    self.soft("char is not UTF-8");
                    Ok(RVal::Char('?'))
                }
            };
        }
        let Some(n) = prim_size(t) else { return Err(Stop::Reject("no raw data of this type")) };
        let b = self.take(n, exp, start)?;
        macro_rules! le {
            ($ty:ty) => {
                <$ty>::from_le_bytes(b.try_into().unwrap())
            };
        }
        Ok(match t {
            1 => match b[0] {
                0 => RVal::Bool(false),
                1 => RVal::Bool(true),
                _ => {
                    self.soft("boolean is neither 0 nor 1");
                    RVal::Bool(true)
                }
            },
            2 => RVal::Byte(b[0]),
            6 => RVal::F64(le!(u64)),
            7 => RVal::I16(le!(i16)),
            8 => RVal::I32(le!(i32)),
            9 => RVal::I64(le!(i64)),
            10 => RVal::I8(b[0] as i8),
            11 => RVal::F32(le!(u32)),
            12 => RVal::TimeSpan(le!(i64)),
            13 => RVal::DateTime(le!(i64)),
            14 => RVal::U16(le!(u16)),
            15 => RVal::U32(le!(u32)),
            16 => RVal::U64(le!(u64)),
            _ => unreachable!(),
        })
    }
    fn prim_code(&mut self) -> R<u8> {
        let t = self.u8(Role::PrimCode)?;
        if !valid_prim(t) {
            return Err(Stop::Reject("unknown primitive type"));
        }
        if t > 16 {
            self.soft("null and string are no raw data");
        }
        Ok(t)
    }
    fn positive(&mut self, r: Role, why: &'static str) -> R<i32> {
        let n = self.i32(r)?;
        if n <= 0 {
            self.soft(why)
        }
        Ok(n)
    }
    fn length(&mut self, r: Role) -> R<usize> {
        let n = self.i32(r)?;
        if n < 0 {
            self.soft("negative length");
            return Ok(0);
        }
        Ok(n as usize)
    }
    fn define(&mut self, id: i32) -> R<()> {
        if self.ids.insert(id, Ent::Open).is_some() {
            self.soft("duplicate object id")
        }
        Ok(())
    }

    // ---- records ----
    fn library(&mut self) -> R<()> {
        let id = self.positive(Role::LibDef, "library id is not positive")?;
        let name = self.str(Role::LibName)?;
        if self.libs.insert(id, name).is_some() {
            self.soft("duplicate library id");
        }
        Ok(())
    }
    fn use_lib(&mut self, id: i32) -> Option<String> {
        let l = self.libs.get(&id).cloned();
        if l.is_none() {
            self.pending_libs.push(id);
        }
        l
    }

    fn slot_type(&mut self, bt: u8) -> R<Slot> {
        Ok(match bt {
            0 => Slot::Prim(self.prim_code()?),
            1 => Slot::Str,
            2 => Slot::Any,
            3 => Slot::Sys(self.str(Role::SlotClass)?),
            4 => {
                let n = self.str(Role::SlotClass)?;
                Slot::Class(n, self.positive(Role::SlotLib, "library id is not positive")?)
            }
            5 => Slot::ObjArr,
            6 => Slot::StrArr,
            7 => Slot::PrimArr(self.prim_code()?),
            _ => unreachable!(),
        })
    }
    fn bin_type(&mut self) -> R<u8> {
        let t = self.u8(Role::BinType)?;
        if t > 7 { Err(Stop::Reject("unknown member type")) } else { Ok(t) }
    }

    /// A class record after its tag, including its members.
    fn class(&mut self, tag: u8, inline: bool) -> R<Rc<RawObj>> {
        let id = self.i32(if inline { Role::InlineClassId } else { Role::ClassId })?;
        if id == 0 {
            self.soft("object id is zero");
        }
        let def = if tag == 1 {
            let meta = self.i32(Role::MetaId)?;
            if meta == 0 || meta == id {
                self.soft("invalid metadata id");
            }
            match self.defs.get(&meta) {
                Some(d) => d.clone(),
                None => {
                    self.soft("metadata id defines no class");
                    let by_obj = match self.ids.get(&meta) {
                        Some(Ent::TopObj(o) | Ent::InlineObj(o)) => Some(o.def.clone()),
                        _ => None,
                    };
                    match by_obj.or_else(|| self.defs.values().last().cloned()) {
                        Some(d) => d,
                        None => return Err(Stop::Reject("metadata id defines no class")),
                    }
                }
            }
        } else {
            let name = self.str(Role::ClassName)?;
            let n = self.length(Role::MemberCount)?;
            let mut members = vec![];
            for i in 0..n {
                self.frames.push((1, n as u32, i as u32));
                let m = self.str(Role::MemberName)?;
                self.frames.pop();
                if members.contains(&m) {
                    self.unspec = Some("duplicate member name");
                }
                members.push(m);
            }
            let slots = if tag >= 4 {
                let mut types = vec![];
                for i in 0..n {
                    self.frames.push((2, n as u32, i as u32));
                    types.push(self.bin_type()?);
                    self.frames.pop();
                }
                let mut slots = vec![];
                for (i, t) in types.into_iter().enumerate() {
                    self.frames.push((3, n as u32, i as u32));
                    slots.push(self.slot_type(t)?);
                    self.frames.pop();
                }
                Some(slots)
            } else {
                None
            };
            let lib = if tag == 3 || tag == 5 {
                let l = self.positive(Role::LibUse, "library id is not positive")?;
                Some((l, self.use_lib(l)))
            } else {
                None
            };
            Rc::new(ClassDef { name, lib, members, slots })
        };
        self.define(id)?;
        if tag != 1 {
            self.defs.insert(id, def.clone());
        }
        let n = def.members.len();
        let mut members = vec![];
        for i in 0..n {
            self.frames.push((4, n as u32, i as u32));
            let slot = def.slots.as_ref().map_or(&Slot::Any, |s| &s[i]);
            let (raw, n) = self.member(slot, false)?;
            if n != 1 {
                self.soft("null run in place of a member");
            }
            members.push(raw);
            self.frames.pop();
        }
        let obj = Rc::new(RawObj { id, def, members });
        let ent = if inline { Ent::InlineObj(obj.clone()) } else { Ent::TopObj(obj.clone()) };
        self.ids.insert(id, ent);
        Ok(obj)
    }

    /// One `memberReference`: a value, or a number of nulls.
    fn member(&mut self, slot: &Slot, elem: bool) -> R<(Raw, usize)> {
        if let Slot::Prim(t) = slot {
            return Ok((Raw::Val(self.prim(*t)?), 1));
        }
        let kind = slot.kind();
        let mut tag = self.tag(TagCtx::Slot(kind, elem))?;
        let mut n_libs = 0;
        while tag == 12 {
            n_libs += 1;
            if n_libs > 1 {
                self.flag("consecutive libraries");
            }
            if kind == SlotKind::StrElem {
                self.flag("library in a string array");
            }
            self.library()?;
            tag = self.tag(TagCtx::SlotAfterLib(kind, elem))?;
        }
        if let Slot::Class(_, l) = slot {
            self.use_lib(*l);
        }
        use SlotKind::*;
        match tag {
            9 => {
                let id = self.positive(Role::RefId, "reference to an invalid id")?;
                self.refs.insert(id);
                self.typed_refs.push((slot.clone(), id));
                Ok((Raw::Ref(id), 1))
            }
            10 => Ok((Raw::Null, 1)),
            13 => match self.u8(Role::NullCount8)? {
                0 => {
                    self.soft("null run of zero");
                    Ok((Raw::Null, 0))
                }
                n => Ok((Raw::Null, n as usize)),
            },
            14 => {
                let n = self.positive(Role::NullCount, "null run of zero")?;
                Ok((Raw::Null, n.max(0) as usize))
            }
            6 => {
                match kind {
                    Sys | Class => self.soft("string in a class slot"),
                    Any | Str | StrElem => (),
                    ObjArr | StrArr | PrimArr => self.flag("string in an array slot"),
                }
                let id = self.positive(Role::InlineStrId, "object id is not positive")?;
                let s = self.str(Role::ObjStr)?;
                self.define(id)?;
                self.ids.insert(id, Ent::InlineStr(s.clone()));
                Ok((Raw::Val(RVal::Str(s)), 1))
            }
            8 => {
                match kind {
                    Any => (),
                    Str | StrElem | Sys | Class => self.soft("primitive in a string or class slot"),
                    ObjArr | StrArr | PrimArr => self.flag("primitive in an array slot"),
                }
                let t = self.prim_code()?;
                Ok((Raw::Val(self.prim(t)?), 1))
            }
            1..=5 => {
                match kind {
                    Any | Sys | Class => (),
                    Str | StrElem => self.soft("object in a string slot"),
                    ObjArr | StrArr | PrimArr => self.flag("object in an array slot"),
                }
                let o = self.class(tag, true)?;
                match slot {
                    Slot::Sys(n) => {
                        if o.def.name != *n || o.def.lib.is_some() {
                            self.soft("object of another class");
                        }
                    }
                    Slot::Class(n, l) => {
                        let want = self.libs.get(l).cloned();
                        let got = o.def.lib.as_ref().map(|(_, n)| n.clone());
                        if o.def.name != *n {
                            self.soft("object of another class");
                        }
                        match got {
                            None => self.soft("object without library"),
                            Some(Some(got)) if want.as_ref().is_some_and(|w| *w != got) => {
                                self.soft("object of another library");
                            }
                            _ => (),
                        }
                    }
                    _ => (),
                }
                Ok((Raw::Obj(o), 1))
            }
            7 | 15 | 16 | 17 => {
                self.soft("array in place of a member");
                let (id, arr) = self.array(tag, Role::ArrId)?;
                self.ids.insert(id, Ent::TopArr(arr));
                Ok((Raw::Ref(id), 1))
            }
            _ => Err(Stop::Reject("record is no member")),
        }
    }

    fn elements(&mut self, slot: &Slot, total: usize) -> R<Vec<Raw>> {
        let mut v = vec![];
        while v.len() < total {
            self.frames.push((5, total as u32, v.len() as u32));
            let (raw, n) = self.member(slot, true)?;
            self.frames.pop();
            let n = if n > total - v.len() {
                self.soft("null run exceeds the array");
                total - v.len()
            } else {
                n
            };
            self.elements += n;
            if self.elements > MAX_ELEMENTS + self.b.len() {
                return Err(Stop::Huge);
            }
            for _ in 1..n {
                v.push(Raw::Null);
            }
            if n > 0 {
                v.push(raw);
            }
        }
        Ok(v)
    }

    fn array(&mut self, tag: u8, id_role: Role) -> R<(i32, Rc<RawArr>)> {
        let id = self.positive(id_role, "object id is not positive")?;
        self.define(id)?;
        let arr = match tag {
            15 => {
                let n = self.length(Role::ArrLen)?;
                let t = self.prim_code()?;
                let elems = self.elements(&Slot::Prim(t), n)?;
                RawArr { dims: vec![n], elems }
            }
            16 | 17 => {
                let n = self.length(Role::ArrLen)?;
                let elems = self.elements(if tag == 16 { &Slot::Any } else { &Slot::StrElem }, n)?;
                RawArr { dims: vec![n], elems }
            }
            _ => {
                let kind = self.u8(Role::ArrKind)?;
                if kind > 5 {
                    self.soft("unknown array kind");
                }
                let rank = self.length(Role::Rank)?;
                let mut dims = vec![];
                for i in 0..rank {
                    self.frames.push((6, rank as u32, i as u32));
                    dims.push(self.length(Role::DimLen)?);
                    self.frames.pop();
                }
                let mut negative = false;
                if kind >= 3 {
                    for i in 0..rank {
                        self.frames.push((7, rank as u32, i as u32));
                        negative |= self.i32(Role::LowerBound)? < 0;
                        self.frames.pop();
                    }
                }
                let bt = self.bin_type()?;
                let slot = self.slot_type(bt)?;
                if rank == 0 {
                    return Err(Stop::Unspec("array of rank 0"));
                }
                if negative {
                    self.flag("negative lower bound");
                }
                if rank != 1 && !matches!(kind, 2 | 5) {
                    self.flag("rank of a one-dimensional array is not 1");
                }
                let mut total = 1u128;
                for d in &dims {
                    total = total.saturating_mul(*d as u128);
                    if total > u64::MAX as u128 {
                        if dims.contains(&0) {
                            return Err(Stop::Unspec("zero times infinity"));
                        }
                        return Err(Stop::Reject("too many elements"));
                    }
                }
                if let Slot::Class(_, l) = &slot {
                    if total == 0 {
                        self.use_lib(*l);
                    }
                }
                let elems = self.elements(&slot, total as usize)?;
                RawArr { dims, elems }
            }
        };
        Ok((id, Rc::new(arr)))
    }

    fn value_with_code(&mut self) -> R<RVal> {
        let t = self.u8(Role::ValueCode)?;
        match t {
            17 => Ok(RVal::Null),
            18 => Ok(RVal::Str(self.str(Role::ArgStr)?)),
            t if valid_prim(t) => self.prim(t),
            _ => Err(Stop::Reject("unknown primitive type")),
        }
    }
    fn string_with_code(&mut self, r: Role) -> R<String> {
        self.fields += 1;
        let p = self.pos;
        if self.take(1, Exp::StrCode(r), p)?[0] != 18 {
            return Err(Stop::Reject("not a string"));
        }
        self.str(r)
    }
    fn inline_args(&mut self) -> R<Vec<RVal>> {
        let n = self.length(Role::ArgsLen)?;
        let mut v = vec![];
        for i in 0..n {
            self.frames.push((8, n as u32, i as u32));
            v.push(self.value_with_code()?);
            self.frames.pop();
        }
        Ok(v)
    }
    fn method(&mut self, is_call: bool) -> R<Method> {
        let flags = self.i32(Role::Flags)? as u32;
        if !flags_ok(flags) {
            self.soft("contradictory flags");
        }
        let (mut name, mut ty, mut ret) = (String::new(), String::new(), None);
        if is_call {
            name = self.string_with_code(Role::MethodName)?;
            ty = self.string_with_code(Role::TypeName)?;
        } else if flags & F_RET_INLINE != 0 {
            ret = Some(self.value_with_code()?);
        }
        let ctx = if flags & F_CTX_INLINE != 0 { Some(self.string_with_code(Role::Context)?) } else { None };
        let args = if flags & F_ARGS_INLINE != 0 { Some(self.inline_args()?) } else { None };
        Ok(Method { flags, is_call, name, ty, ctx, args, ret, call_array: None })
    }

    fn message(&mut self) -> R<RMsg> {
        if self.tag(TagCtx::Header)? != 0 {
            return Err(Stop::Reject("no header"));
        }
        self.root = self.i32(Role::RootId)?;
        if self.root < 0 {
            self.soft("negative root id");
        }
        self.i32(Role::HeaderId)?;
        if self.i32(Role::Major)? != 1 || self.i32(Role::Minor)? != 0 {
            self.soft("not version 1.0");
        }
        let mut method: Option<Method> = None;
        let mut after_method = false;
        let mut libs_before = 0;
        loop {
            let ctx = if libs_before > 0 {
                TagCtx::TopAfterLib
            } else if after_method {
                TagCtx::AfterMethod
            } else {
                TagCtx::Top
            };
            let tag = self.tag(ctx)?;
            if tag == 12 {
                libs_before += 1;
                if libs_before > 1 {
                    self.flag("consecutive libraries");
                }
                self.library()?;
                continue;
            }
            let had_lib = libs_before > 0;
            libs_before = 0;
            let call_array_here = after_method && tag == 16;
            let was_after_method = after_method;
            after_method = false;
            match tag {
                1..=5 => {
                    self.n_top += 1;
                    self.class(tag, false)?;
                }
                6 => {
                    if had_lib {
                        self.flag("library in front of a string");
                    }
                    self.n_top += 1;
                    let id = self.positive(Role::StrId, "object id is not positive")?;
                    let s = self.str(Role::ObjStr)?;
                    self.define(id)?;
                    self.ids.insert(id, Ent::TopStr(s));
                }
                7 | 15 | 16 | 17 => {
                    self.n_top += 1;
                    let role = if call_array_here { Role::CallArrId } else { Role::ArrId };
                    self.frames.push((9, 0, was_after_method as u32));
                    let (id, arr) = self.array(tag, role)?;
                    self.frames.pop();
                    if call_array_here {
                        let expected = std::mem::take(&mut self.announced);
                        if id == self.root {
                            m_call_array(&mut method, arr);
                            self.ids.insert(id, Ent::CallArr);
                            continue;
                        }
                        if expected {
                            self.soft("call array is not the root");
                            m_call_array(&mut method, arr);
                            continue;
                        }
                        self.flag("array behind a method that announces none");
                    }
                    self.ids.insert(id, Ent::TopArr(arr));
                }
                21 | 22 => {
                    if method.is_some() {
                        self.soft("second method");
                    }
                    let m = self.method(tag == 21)?;
                    self.announced = announced(&m);
                    method = Some(m);
                    self.has_method = true;
                    after_method = true;
                }
                8 | 9 | 10 | 13 | 14 => {
                    self.soft("record not allowed at top level");
                    self.pos -= 1;
                    self.fields -= 1;
                    self.member(&Slot::Any, false)?;
                }
                11 => {
                    if had_lib {
                        self.flag("library at the end");
                    }
                    break;
                }
                _ => return Err(Stop::Reject("record not allowed at top level")),
            }
        }
        if self.pos != self.b.len() {
            return Err(Stop::Reject("trailing data"));
        }
        self.finish(method)
    }

    fn finish(&mut self, method: Option<Method>) -> R<RMsg> {
        for l in std::mem::take(&mut self.pending_libs) {
            if !self.libs.contains_key(&l) {
                return Err(Stop::Reject("undefined library"));
            }
            self.unspec = Some("library used before its definition");
        }
        if self.undefined_refs().next().is_some() {
            return Err(Stop::Reject("undefined reference"));
        }
        for (slot, id) in std::mem::take(&mut self.typed_refs) {
            let ent = &self.ids[&id];
            let is_str = matches!(ent, Ent::TopStr(_) | Ent::InlineStr(_));
            let is_arr = matches!(ent, Ent::TopArr(_) | Ent::CallArr);
            let class = match ent {
                Ent::TopObj(o) | Ent::InlineObj(o) => {
                    Some((o.def.name.clone(), o.def.lib.as_ref().and_then(|l| l.1.clone())))
                }
                _ => None,
            };
            let fits = match &slot {
                Slot::Any => true,
                Slot::Str | Slot::StrElem => is_str,
                Slot::Sys(n) => class == Some((n.clone(), None)),
                Slot::Class(n, l) => class.is_some() && class == Some((n.clone(), self.libs.get(l).cloned())),
                Slot::ObjArr | Slot::StrArr | Slot::PrimArr(_) => is_arr,
                Slot::Prim(_) => unreachable!(),
            };
            if !fits {
                self.flag("referenced object does not fit the slot");
            }
        }
        let mut rs = Resolver { m: self, open: vec![], used: BTreeSet::new(), shared: false, budget: 200_000 + 2 * (self.elements + self.b.len()) };
        let msg = match method {
            None => {
                let root = rs.m.root;
                if root == 0 {
                    return Err(Stop::Unspec("root id 0"));
                }
                match rs.m.ids.get(&root) {
                    None => return Err(Stop::Reject("no object has the root id")),
                    Some(Ent::InlineObj(_) | Ent::InlineStr(_)) => return Err(Stop::Unspec("inline root")),
                    Some(_) => RMsg::Value(rs.reference(root)?),
                }
            }
            Some(m) => {
                let call_array = match &m.call_array {
                    Some(a) => {
                        let root = rs.m.root;
                        rs.open.push(root);
                        let v = a.elems.iter().map(|r| rs.raw(r)).collect::<R<Vec<_>>>()?;
                        Some(v)
                    }
                    None => None,
                };
                let args = if m.flags & F_ARGS_IS_ARRAY != 0 {
                    match &call_array {
                        Some(a) => Some(a.clone()),
                        None => return Err(Stop::Reject("announced call array is missing")),
                    }
                } else if m.flags & F_ARGS_IN_ARRAY != 0 {
                    match call_array.as_ref().and_then(|a| a.first()) {
                        Some(RVal::Arr(a)) => Some(a.clone()),
                        Some(RVal::EmptyArr) => return Err(Stop::Unspec("empty rectangular array as arguments")),
                        _ => return Err(Stop::Reject("announced arguments are missing")),
                    }
                } else {
                    m.args.clone()
                };
                if m.is_call {
                    RMsg::Call { name: m.name, ty: m.ty, ctx: m.ctx, args }
                } else {
                    let ret = if m.flags & F_RET_IN_ARRAY != 0 {
                        if m.flags & F_ARGS_IS_ARRAY != 0 {
                            Some(RVal::Any)
                        } else {
                            let i = usize::from(m.flags & F_ARGS_IN_ARRAY != 0);
                            match call_array.as_ref().and_then(|a| a.get(i)) {
                                Some(v) => Some(v.clone()),
                                None => return Err(Stop::Reject("announced return value is missing")),
                            }
                        }
                    } else {
                        m.ret
                    };
                    RMsg::Ret { ret, ctx: m.ctx, args }
                }
            }
        };
        if rs.shared {
            self.lenient = Some(KF_SHARE);
        }
        Ok(msg)
    }

    pub fn run(&mut self) -> Verdict {
        let r = self.message();
        if let (Some(why), Ok(_) | Err(Stop::Unspec(_) | Stop::Reject(_))) = (self.soft, &r) {
            return Verdict::Reject(why);
        }
        match r {
            Ok(msg) => match self.unspec {
                Some(why) => Verdict::Unspec(why),
                None => Verdict::Accept { msg, lenient: self.lenient },
            },
            Err(Stop::Reject(why)) => Verdict::Reject(why),
            Err(Stop::Unspec(why)) => Verdict::Unspec(why),
            Err(Stop::Huge) => Verdict::Huge,
            Err(Stop::Incomplete(exp, start)) => Verdict::Incomplete { exp, boundary: start == self.b.len() },
        }
    }
}

fn m_call_array(m: &mut Option<Method>, arr: Rc<RawArr>) {
    m.as_mut().unwrap().call_array = Some(arr);
}

fn announced(m: &Method) -> bool {
    m.flags & (F_ARGS_IS_ARRAY | F_ARGS_IN_ARRAY) != 0 || (!m.is_call && m.flags & F_RET_IN_ARRAY != 0)
}

struct Resolver<'m, 'a> {
    m: &'m Model<'a>,
    open: Vec<i32>,
    used: BTreeSet<i32>,
    shared: bool,
    budget: usize,
}

impl Resolver<'_, '_> {
    fn raw(&mut self, r: &Raw) -> R<RVal> {
        if self.budget == 0 {
            return Err(Stop::Unspec("too much sharing"));
        }
        self.budget -= 1;
        match r {
            Raw::Val(v) => Ok(v.clone()),
            Raw::Null => Ok(RVal::Null),
            Raw::Obj(o) => self.obj(o),
            Raw::Ref(id) => self.reference(*id),
        }
    }
    fn obj(&mut self, o: &Rc<RawObj>) -> R<RVal> {
        self.open.push(o.id);
        let mut members = vec![];
        for (name, raw) in o.def.members.iter().zip(&o.members) {
            members.push((name.clone(), self.raw(raw)?));
        }
        self.open.pop();
        Ok(RVal::Obj(RObj {
            class: o.def.name.clone(),
            lib: o.def.lib.as_ref().map(|(_, n)| n.clone().unwrap_or_default()),
            members,
        }))
    }
    fn reference(&mut self, id: i32) -> R<RVal> {
        let ent = match self.m.ids.get(&id) {
            Some(e) => e.clone(),
            None => return Err(Stop::Reject("undefined reference")),
        };
        match &ent {
            Ent::TopStr(s) | Ent::InlineStr(s) => return Ok(RVal::Str(s.clone())),
            _ => (),
        }
        if self.open.contains(&id) {
            return Err(Stop::Reject("cyclic reference"));
        }
        if !self.used.insert(id) || matches!(ent, Ent::InlineObj(_) | Ent::CallArr) {
            self.shared = true;
        }
        match ent {
            Ent::TopObj(o) | Ent::InlineObj(o) => self.obj(&o),
            Ent::TopArr(a) => {
                self.open.push(id);
                let mut v = a.elems.iter().map(|r| self.raw(r)).collect::<R<Vec<_>>>()?;
                self.open.pop();
                if a.dims.len() > 1 && a.elems.is_empty() {
                    return Ok(RVal::EmptyArr);
                }
                for d in a.dims.iter().skip(1).rev() {
                    let mut outer = vec![];
                    let mut it = v.into_iter().peekable();
                    while it.peek().is_some() {
                        outer.push(RVal::Arr(it.by_ref().take(*d).collect()));
                    }
                    v = outer;
                }
                Ok(RVal::Arr(v))
            }
            _ => Err(Stop::Unspec("reference to the call array")),
        }
    }
}

pub fn run(b: &[u8]) -> Verdict {
    Model::new(b).run()
}
