//! Encoder: builds messages field by field.
#[derive(Clone, Default, Debug)]
pub struct E(pub Vec<u8>);

pub fn lps(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut n = s.len();
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            break;
        }
        v.push(b | 0x80);
    }
    v.extend_from_slice(s);
    v
}

impl E {
    pub fn new() -> Self {
        E(vec![])
    }
    /// A message with this root id, up to and including the header.
    pub fn msg(root: i32) -> Self {
        E::new().u8(0).i32(root).i32(-1).i32(1).i32(0)
    }
    pub fn u8(mut self, b: u8) -> Self {
        self.0.push(b);
        self
    }
    pub fn i32(mut self, n: i32) -> Self {
        self.0.extend_from_slice(&n.to_le_bytes());
        self
    }
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn s(self, s: &str) -> Self {
        let b = lps(s.as_bytes());
        self.raw(&b)
    }
    pub fn cat(self, o: &E) -> Self {
        self.raw(&o.0)
    }
    pub fn lib(self, id: i32, name: &str) -> Self {
        self.u8(12).i32(id).s(name)
    }
    pub fn string(self, id: i32, s: &str) -> Self {
        self.u8(6).i32(id).s(s)
    }
    pub fn null(self) -> Self {
        self.u8(10)
    }
    pub fn nulls(self, n: i32) -> Self {
        self.u8(14).i32(n)
    }
    pub fn nulls8(self, n: u8) -> Self {
        self.u8(13).u8(n)
    }
    pub fn r(self, id: i32) -> Self {
        self.u8(9).i32(id)
    }
    /// `MemberPrimitiveTyped` with an `Int32`.
    pub fn int(self, n: i32) -> Self {
        self.u8(8).u8(8).i32(n)
    }
    pub fn typed(self, t: u8, raw: &[u8]) -> Self {
        self.u8(8).u8(t).raw(raw)
    }
    pub fn arr_obj(self, id: i32, n: i32) -> Self {
        self.u8(16).i32(id).i32(n)
    }
    pub fn arr_str(self, id: i32, n: i32) -> Self {
        self.u8(17).i32(id).i32(n)
    }
    pub fn arr_prim(self, id: i32, n: i32, t: u8) -> Self {
        self.u8(15).i32(id).i32(n).u8(t)
    }
    fn info(self, id: i32, name: &str, members: &[&str]) -> Self {
        let mut e = self.i32(id).s(name).i32(members.len() as i32);
        for m in members {
            e = e.s(m);
        }
        e
    }
    fn types(self, types: &[(u8, E)]) -> Self {
        let mut e = self;
        for t in types {
            e = e.u8(t.0);
        }
        for t in types {
            e = e.cat(&t.1);
        }
        e
    }
    /// `SystemClassWithMembers`
    pub fn sys(self, id: i32, name: &str, members: &[&str]) -> Self {
        self.u8(2).info(id, name, members)
    }
    /// `ClassWithMembers`
    pub fn cls(self, id: i32, name: &str, members: &[&str], lib: i32) -> Self {
        self.u8(3).info(id, name, members).i32(lib)
    }
    /// `SystemClassWithMembersAndTypes`
    pub fn syst(self, id: i32, name: &str, members: &[&str], types: &[(u8, E)]) -> Self {
        self.u8(4).info(id, name, members).types(types)
    }
    /// `ClassWithMembersAndTypes`
    pub fn clst(self, id: i32, name: &str, members: &[&str], types: &[(u8, E)], lib: i32) -> Self {
        self.u8(5).info(id, name, members).types(types).i32(lib)
    }
    pub fn byid(self, id: i32, meta: i32) -> Self {
        self.u8(1).i32(id).i32(meta)
    }
    pub fn bin_arr(self, id: i32, kind: u8, lens: &[i32], bounds: &[i32], t: &(u8, E)) -> Self {
        let mut e = self.u8(7).i32(id).u8(kind).i32(lens.len() as i32);
        for l in lens.iter().chain(bounds) {
            e = e.i32(*l);
        }
        e.u8(t.0).cat(&t.1)
    }
    pub fn sc(self, s: &str) -> Self {
        self.u8(18).s(s)
    }
    pub fn call(self, flags: i32, name: &str, ty: &str) -> Self {
        self.u8(21).i32(flags).sc(name).sc(ty)
    }
    pub fn ret(self, flags: i32) -> Self {
        self.u8(22).i32(flags)
    }
    pub fn end(self) -> Vec<u8> {
        self.u8(11).0
    }
}

pub fn t_prim(p: u8) -> (u8, E) {
    (0, E::new().u8(p))
}
pub fn t_str() -> (u8, E) {
    (1, E::new())
}
pub fn t_obj() -> (u8, E) {
    (2, E::new())
}
pub fn t_sys(n: &str) -> (u8, E) {
    (3, E::new().s(n))
}
pub fn t_cls(n: &str, lib: i32) -> (u8, E) {
    (4, E::new().s(n).i32(lib))
}
pub fn t_objarr() -> (u8, E) {
    (5, E::new())
}
pub fn t_strarr() -> (u8, E) {
    (6, E::new())
}
pub fn t_primarr(p: u8) -> (u8, E) {
    (7, E::new().u8(p))
}
