//! Every encoding of an abstract value: a non-deterministic encoder whose choices are enumerated.
use crate::enc::*;
use crate::rv::RVal;
use std::collections::{BTreeMap, HashMap};

/// A sequence of choices; `next` steps to the lexicographically next one (depth-first search over all runs).
pub struct Choices {
    path: Vec<(u32, u32)>,
    at: usize,
    /// In global mode every choice of a category is made once, for all places.
    global: bool,
    memo: HashMap<(&'static str, u32), u32>,
    /// Categories which are not enumerated (their first option is taken).
    pub only: Option<&'static [&'static str]>,
}

impl Choices {
    pub fn new(global: bool) -> Self {
        Choices { path: vec![], at: 0, global, memo: HashMap::new(), only: None }
    }
    pub fn pick(&mut self, cat: &'static str, n: usize) -> usize {
        let n = n as u32;
        if n <= 1 || self.only.is_some_and(|o| !o.contains(&cat)) {
            return 0;
        }
        if self.global {
            if let Some(v) = self.memo.get(&(cat, n)) {
                return *v as usize;
            }
        }
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (v, m) = self.path[self.at];
        assert_eq!(m, n, "encoder is not deterministic");
        self.at += 1;
        if self.global {
            self.memo.insert((cat, n), v);
        }
        v as usize
    }
    /// Prepares the next run; false if all runs are done.
    pub fn next(&mut self) -> bool {
        self.at = 0;
        self.memo.clear();
        while let Some((v, n)) = self.path.pop() {
            if v + 1 < n {
                self.path.push((v + 1, n));
                return true;
            }
        }
        false
    }
    pub fn len(&self) -> usize {
        self.path.len()
    }
}

/// The primitive type and raw bytes of a scalar.
pub fn prim_bytes(v: &RVal) -> Option<(u8, Vec<u8>)> {
    Some(match v {
        RVal::Bool(b) => (1, vec![u8::from(*b)]),
        RVal::Byte(b) => (2, vec![*b]),
        RVal::Char(c) => (3, c.to_string().into_bytes()),
        RVal::Dec(s) => (5, lps(s.as_bytes())),
        RVal::F64(b) => (6, b.to_le_bytes().to_vec()),
        RVal::I16(n) => (7, n.to_le_bytes().to_vec()),
        RVal::I32(n) => (8, n.to_le_bytes().to_vec()),
        RVal::I64(n) => (9, n.to_le_bytes().to_vec()),
        RVal::I8(n) => (10, vec![*n as u8]),
        RVal::F32(b) => (11, b.to_le_bytes().to_vec()),
        RVal::TimeSpan(n) => (12, n.to_le_bytes().to_vec()),
        RVal::DateTime(n) => (13, n.to_le_bytes().to_vec()),
        RVal::U16(n) => (14, n.to_le_bytes().to_vec()),
        RVal::U32(n) => (15, n.to_le_bytes().to_vec()),
        RVal::U64(n) => (16, n.to_le_bytes().to_vec()),
        _ => return None,
    })
}

enum K {
    Scalar(u8, Vec<u8>),
    Null,
    Str(String),
    Arr(Vec<usize>),
    Obj { class: String, lib: Option<String>, names: Vec<String>, kids: Vec<usize> },
}
#[derive(Clone, Copy, PartialEq)]
enum Place {
    Inline,
    Before,
    After,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    SingleObject,
    SingleString,
    SinglePrim(u8),
    BinObject(u8),
    BinString(u8),
    BinPrim(u8, u8),
    BinClass,
    RectObject(u8),
    Jagged(u8),
}
struct Node {
    k: K,
    place: Place,
    form: Form,
    id: i32,
}
#[derive(Clone, PartialEq)]
enum Slot {
    Obj,
    Prim(u8),
    Str,
    Class(String, Option<String>),
    ObjArr,
    StrArr,
    PrimArr(u8),
}
struct Def {
    class: String,
    lib: Option<String>,
    names: Vec<String>,
    slots: Vec<Slot>,
    id: i32,
}

struct Enc<'c> {
    c: &'c mut Choices,
    n: Vec<Node>,
    ids: usize,
    lib_scheme: usize,
    lib_count: i32,
    libs: BTreeMap<String, i32>,
    defs: Vec<Def>,
    /// Where a string is defined, once its record is emitted or its place is settled.
    str_mode: BTreeMap<String, usize>,
    str_left: BTreeMap<String, usize>,
    str_id: BTreeMap<String, i32>,
    str_done: BTreeMap<String, bool>,
    next: i32,
    e: E,
}

impl Enc<'_> {
    fn fresh(&mut self) -> i32 {
        let k = self.next;
        self.next += 1;
        match self.ids {
            0 => k,
            1 => 100 - k,
            2 => 0x0100_0000 * k + 5,
            _ => i32::MAX - k,
        }
    }
    fn add(&mut self, v: &RVal) -> usize {
        let k = match v {
            RVal::Null => K::Null,
            RVal::Str(s) => K::Str(s.clone()),
            RVal::Arr(a) => K::Arr(a.iter().map(|v| self.add(v)).collect()),
            RVal::Obj(o) => {
                let kids = o.members.iter().map(|(_, v)| self.add(v)).collect();
                K::Obj { class: o.class.clone(), lib: o.lib.clone(), names: o.members.iter().map(|m| m.0.clone()).collect(), kids }
            }
            v => {
                let (t, b) = prim_bytes(v).expect("value has no encoding");
                K::Scalar(t, b)
            }
        };
        self.n.push(Node { k, place: Place::Inline, form: Form::SingleObject, id: 0 });
        self.n.len() - 1
    }
    /// Settles placement, record forms and ids from the root downwards.
    fn plan(&mut self, i: usize, root: bool) {
        self.n[i].id = match self.n[i].k {
            K::Scalar(..) | K::Null | K::Str(_) => 0,
            _ => self.fresh(),
        };
        match &self.n[i].k {
            K::Str(s) if !root => {
                let s = s.clone();
                *self.str_left.entry(s).or_default() += 1;
            }
            K::Str(_) => self.n[i].id = self.fresh(),
            K::Arr(kids) => {
                let kids = kids.clone();
                if !root {
                    self.n[i].place = [Place::After, Place::Before][self.c.pick("array place", 2)];
                }
                let forms = self.forms(&kids);
                let f = forms[self.c.pick("array form", forms.len())];
                self.n[i].form = f;
                if let Form::RectObject(_) = f {
                    for k in kids {
                        let K::Arr(inner) = &self.n[k].k else { unreachable!() };
                        for j in inner.clone() {
                            self.plan(j, false)
                        }
                    }
                } else {
                    for k in kids {
                        self.plan(k, false)
                    }
                    if let Form::Jagged(_) = f {
                        self.n[i].form = self.jagged(i);
                    }
                }
            }
            K::Obj { kids, .. } => {
                let kids = kids.clone();
                if !root {
                    self.n[i].place = [Place::Inline, Place::After, Place::Before][self.c.pick("object place", 3)];
                }
                for k in kids {
                    self.plan(k, false)
                }
            }
            _ => (),
        }
    }
    fn forms(&self, kids: &[usize]) -> Vec<Form> {
        let mut v = vec![Form::SingleObject, Form::BinObject(0), Form::BinObject(3)];
        let ks: Vec<&K> = kids.iter().map(|k| &self.n[*k].k).collect();
        if ks.iter().all(|k| matches!(k, K::Null | K::Str(_))) {
            v.extend([Form::SingleString, Form::BinString(0), Form::BinString(3)]);
        }
        if let Some(K::Scalar(t, _)) = ks.first() {
            if ks.iter().all(|k| matches!(k, K::Scalar(u, _) if u == t)) {
                v.extend([Form::SinglePrim(*t), Form::BinPrim(0, *t), Form::BinPrim(3, *t)]);
            }
        }
        if ks.is_empty() {
            v.extend([Form::SinglePrim(8), Form::BinPrim(3, 3)]);
        }
        let mut class = None;
        if ks.iter().all(|k| match k {
            K::Null => true,
            K::Obj { class: c, lib, .. } => class.replace((c, lib)).is_none_or(|x| x == (c, lib)),
            _ => false,
        }) && class.is_some()
        {
            v.push(Form::BinClass);
        }
        let lens: Vec<Option<usize>> = ks.iter().map(|k| if let K::Arr(a) = k { Some(a.len()) } else { None }).collect();
        if let Some(Some(n)) = lens.first() {
            if *n > 0 && lens.iter().all(|l| *l == Some(*n)) {
                v.extend([Form::RectObject(2), Form::RectObject(5)]);
            }
        }
        if !lens.is_empty() && lens.iter().all(|l| l.is_some()) {
            v.extend([Form::Jagged(1), Form::Jagged(4)]);
        }
        v
    }
    /// A jagged array names the kind of its inner arrays if they are all of one kind.
    fn jagged(&self, i: usize) -> Form {
        self.n[i].form
    }
    fn array_slot(&self, f: Form) -> Option<Slot> {
        Some(match f {
            Form::SingleObject => Slot::ObjArr,
            Form::SingleString => Slot::StrArr,
            Form::SinglePrim(t) => Slot::PrimArr(t),
            _ => return None,
        })
    }
    fn slot_type(&mut self, s: &Slot) -> (u8, E) {
        match s {
            Slot::Obj => t_obj(),
            Slot::Prim(t) => t_prim(*t),
            Slot::Str => t_str(),
            Slot::Class(c, None) => t_sys(c),
            Slot::Class(c, Some(l)) => t_cls(c, self.lib_id(l)),
            Slot::ObjArr => t_objarr(),
            Slot::StrArr => t_strarr(),
            Slot::PrimArr(t) => t_primarr(*t),
        }
    }
    fn lib_id(&mut self, l: &str) -> i32 {
        *self.libs.get(l).expect("library is emitted before its use")
    }
    /// Emits the libraries the record about to be written needs; only one may precede a record, so further
    /// ones are put in front of empty arrays nobody refers to (`aside` says that this is possible here).
    /// A library may be defined again under another id.
    fn need_lib(&mut self, l: &str) {
        if self.libs.contains_key(l) && self.c.pick("library again", 2) == 0 {
            return;
        }
        let k = self.lib_count;
        self.lib_count += 1;
        let id = match self.lib_scheme {
            0 => k + 1,
            1 => 77 - k,
            _ => 0x0100_0000 + k,
        };
        self.libs.insert(l.to_string(), id);
        self.e = std::mem::take(&mut self.e).lib(id, l);
    }
    fn fits(&self, s: &Slot, i: usize) -> bool {
        match (s, &self.n[i].k) {
            (Slot::Obj, _) => true,
            (Slot::Prim(t), K::Scalar(u, _)) => t == u,
            (Slot::Prim(_), _) => false,
            (Slot::Str, k) => matches!(k, K::Str(_) | K::Null),
            (_, K::Null) => true,
            (Slot::Class(c, l), K::Obj { class, lib, .. }) => c == class && l == lib,
            (s, K::Arr(_)) => self.array_slot(self.n[i].form).as_ref() == Some(s),
            _ => false,
        }
    }
    fn string(&mut self, s: &str) {
        let mode = self.str_mode[s];
        let left = self.str_left.get_mut(s).unwrap();
        *left -= 1;
        let left = *left;
        let inline = match mode {
            0 => true,
            1 | 2 => false,
            3 => !self.str_done[s],
            _ => left == 0,
        };
        let e = std::mem::take(&mut self.e);
        self.e = if inline {
            let id = if mode == 0 { self.fresh() } else { self.str_id[s] };
            self.str_done.insert(s.to_string(), true);
            e.string(id, s)
        } else {
            e.r(self.str_id[s])
        };
    }
    /// A record in a member or element position.
    fn item(&mut self, i: usize) {
        match &self.n[i].k {
            K::Scalar(t, b) => {
                let (t, b) = (*t, b.clone());
                self.e = std::mem::take(&mut self.e).typed(t, &b)
            }
            K::Null => self.e = std::mem::take(&mut self.e).null(),
            K::Str(s) => {
                let s = s.clone();
                self.string(&s)
            }
            K::Obj { .. } if self.n[i].place == Place::Inline => self.record(i),
            _ => self.e = std::mem::take(&mut self.e).r(self.n[i].id),
        }
    }
    fn elements(&mut self, kids: &[usize]) {
        let mut k = 0;
        while k < kids.len() {
            let run = kids[k..].iter().take_while(|k| matches!(self.n[**k].k, K::Null)).count();
            if run > 0 {
                let n = run - self.c.pick("null run length", run);
                let e = std::mem::take(&mut self.e);
                self.e = match self.c.pick("null record", if n == 1 { 3 } else { 2 }) {
                    0 => e.nulls8(n as u8),
                    1 => e.nulls(n as i32),
                    _ => e.null(),
                };
                k += n;
            } else {
                self.item(kids[k]);
                k += 1;
            }
        }
    }
    fn record(&mut self, i: usize) {
        let id = self.n[i].id;
        match &self.n[i].k {
            K::Str(s) => {
                let s = s.clone();
                self.e = std::mem::take(&mut self.e).string(id, &s)
            }
            K::Arr(kids) => {
                let kids = kids.clone();
                let n = kids.len() as i32;
                let raw = |me: &Self| kids.iter().flat_map(|k| match &me.n[*k].k {
                    K::Scalar(_, b) => b.clone(),
                    _ => unreachable!(),
                }).collect::<Vec<u8>>();
                let bounds = |k: u8, r: usize| if k >= 3 { vec![4; r] } else { vec![] };
                match self.n[i].form {
                    Form::SingleObject => {
                        self.e = std::mem::take(&mut self.e).arr_obj(id, n);
                        self.elements(&kids)
                    }
                    Form::SingleString => {
                        self.e = std::mem::take(&mut self.e).arr_str(id, n);
                        self.elements(&kids)
                    }
                    Form::SinglePrim(t) => {
                        let raw = raw(self);
                        self.e = std::mem::take(&mut self.e).arr_prim(id, n, t).raw(&raw)
                    }
                    Form::BinObject(k) => {
                        self.e = std::mem::take(&mut self.e).bin_arr(id, k, &[n], &bounds(k, 1), &t_obj());
                        self.elements(&kids)
                    }
                    Form::BinString(k) => {
                        self.e = std::mem::take(&mut self.e).bin_arr(id, k, &[n], &bounds(k, 1), &t_str());
                        self.elements(&kids)
                    }
                    Form::BinPrim(k, t) => {
                        let raw = raw(self);
                        self.e = std::mem::take(&mut self.e).bin_arr(id, k, &[n], &bounds(k, 1), &t_prim(t)).raw(&raw)
                    }
                    Form::BinClass => {
                        let (c, l) = kids.iter().find_map(|k| match &self.n[*k].k {
                            K::Obj { class, lib, .. } => Some((class.clone(), lib.clone())),
                            _ => None,
                        }).unwrap();
                        if let Some(l) = &l {
                            self.need_lib(l)
                        }
                        let t = self.slot_type(&Slot::Class(c, l));
                        self.e = std::mem::take(&mut self.e).bin_arr(id, 0, &[n], &[], &t);
                        self.elements(&kids)
                    }
                    Form::RectObject(k) => {
                        let inner: Vec<usize> = kids.iter().flat_map(|k| match &self.n[*k].k {
                            K::Arr(a) => a.clone(),
                            _ => unreachable!(),
                        }).collect();
                        let m = inner.len() as i32 / n;
                        self.e = std::mem::take(&mut self.e).bin_arr(id, k, &[n, m], &bounds(k, 2), &t_obj());
                        self.elements(&inner)
                    }
                    Form::Jagged(k) => {
                        let mut ts = kids.iter().map(|k| self.array_slot(self.n[*k].form));
                        let t = match ts.next() {
                            Some(Some(t)) if ts.all(|u| u.as_ref() == Some(&t)) => t,
                            _ => Slot::Obj,
                        };
                        let t = self.slot_type(&t);
                        self.e = std::mem::take(&mut self.e).bin_arr(id, k, &[n], &bounds(k, 1), &t);
                        self.elements(&kids)
                    }
                }
            }
            K::Obj { class, lib, names, kids } => {
                let (class, lib, names, kids) = (class.clone(), lib.clone(), names.clone(), kids.clone());
                if let Some(l) = &lib {
                    self.need_lib(l)
                }
                let reuse: Vec<i32> = self.defs.iter().filter(|d| {
                    d.class == class && d.lib == lib && d.names == names && d.slots.iter().zip(&kids).all(|(s, k)| self.fits(s, *k))
                }).map(|d| d.id).collect();
                let refs: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
                let form = self.c.pick("class record", 2 + reuse.len().min(2));
                let e = std::mem::take(&mut self.e);
                if form >= 2 {
                    // the first or the last definition
                    let d = if form == 2 { reuse[0] } else { reuse[reuse.len() - 1] };
                    self.e = e.byid(id, d);
                } else if form == 1 {
                    let slots: Vec<Slot> = kids.iter().map(|k| self.slot(*k)).collect();
                    let types: Vec<(u8, E)> = slots.iter().map(|s| self.slot_type(s)).collect();
                    self.e = match &lib {
                        None => e.syst(id, &class, &refs, &types),
                        Some(l) => e.clst(id, &class, &refs, &types, self.libs[l]),
                    };
                    self.defs.push(Def { class, lib, names, slots, id });
                } else {
                    self.e = match &lib {
                        None => e.sys(id, &class, &refs),
                        Some(l) => e.cls(id, &class, &refs, self.libs[l]),
                    };
                    let slots = vec![Slot::Obj; kids.len()];
                    self.defs.push(Def { class, lib, names, slots, id });
                }
                let slots = self.defs.iter().find(|d| if form >= 2 { d.id == reuse[if form == 2 { 0 } else { reuse.len() - 1 }] } else { d.id == id }).unwrap().slots.clone();
                for (s, k) in slots.iter().zip(kids) {
                    match (s, &self.n[k].k) {
                        (Slot::Prim(_), K::Scalar(_, b)) => {
                            let b = b.clone();
                            self.e = std::mem::take(&mut self.e).raw(&b)
                        }
                        _ => self.item(k),
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    /// The declared type of a typed member that holds this node.
    fn slot(&mut self, i: usize) -> Slot {
        let mut opts = vec![];
        match &self.n[i].k {
            K::Scalar(t, _) => opts.push(Slot::Prim(*t)),
            K::Str(_) => opts.push(Slot::Str),
            K::Null => opts.extend([Slot::Str, Slot::Class("Q".into(), None), Slot::ObjArr]),
            K::Arr(_) => opts.extend(self.array_slot(self.n[i].form)),
            K::Obj { class, lib, .. } => {
                if lib.as_ref().is_none_or(|l| self.libs.contains_key(l)) {
                    opts.push(Slot::Class(class.clone(), lib.clone()))
                }
            }
        }
        opts.push(Slot::Obj);
        let k = self.c.pick("member type", opts.len());
        opts.swap_remove(k)
    }
}

/// The encoding of `v` (an object, array or string) selected by the choices.
pub fn encode(v: &RVal, c: &mut Choices) -> Vec<u8> {
    let ids = c.pick("ids", 4);
    let lib_scheme = c.pick("library ids", 3);
    let mut w = Enc {
        c,
        n: vec![],
        ids,
        lib_scheme,
        lib_count: 0,
        libs: BTreeMap::new(),
        defs: vec![],
        str_mode: BTreeMap::new(),
        str_left: BTreeMap::new(),
        str_id: BTreeMap::new(),
        str_done: BTreeMap::new(),
        next: 1,
        e: E::new(),
    };
    let root = w.add(v);
    w.plan(root, true);
    let root_id = w.n[root].id;
    let strs: Vec<(String, usize)> = w.str_left.iter().map(|(s, n)| (s.clone(), *n)).collect();
    for (s, n) in strs {
        let mode = w.c.pick("string place", if n > 1 { 5 } else { 3 });
        w.str_mode.insert(s.clone(), mode);
        let id = if mode == 0 { 0 } else { w.fresh() };
        w.str_id.insert(s.clone(), id);
        w.str_done.insert(s, false);
    }
    let top_strings = |w: &Enc<'_>, m: usize| -> Vec<(i32, String)> {
        w.str_mode.iter().filter(|x| *x.1 == m).map(|x| (w.str_id[x.0], x.0.clone())).collect()
    };
    let mut head = E::msg(root_id);
    // libraries well before their first use
    let all_libs: Vec<String> = {
        let mut l: Vec<String> = w.n.iter().filter_map(|n| if let K::Obj { lib: Some(l), .. } = &n.k { Some(l.clone()) } else { None }).collect();
        l.dedup();
        l
    };
    if !all_libs.is_empty() && w.c.pick("library place", 2) == 1 {
        for l in &all_libs {
            if w.libs.contains_key(l) {
                continue;
            }
            w.need_lib(l);
            let id = w.fresh();
            w.e = std::mem::take(&mut w.e).arr_obj(id, 0);
        }
    }
    head = head.cat(&std::mem::take(&mut w.e));
    w.e = head;
    for (id, s) in top_strings(&w, 1) {
        w.e = std::mem::take(&mut w.e).string(id, &s);
    }
    let of = |w: &Enc<'_>, p: Place| -> Vec<usize> {
        (0..w.n.len()).filter(|i| *i != root && w.n[*i].id != 0 && w.n[*i].place == p && !matches!(w.n[*i].k, K::Str(_))).collect()
    };
    for i in of(&w, Place::Before) {
        w.record(i)
    }
    w.record(root);
    for i in of(&w, Place::After) {
        w.record(i)
    }
    for (id, s) in top_strings(&w, 2) {
        w.e = std::mem::take(&mut w.e).string(id, &s);
    }
    w.e.end()
}

/// The plain encoding.
pub fn plain(v: &RVal) -> Vec<u8> {
    let mut c = Choices::new(false);
    c.only = Some(&[]);
    encode(v, &mut c)
}
