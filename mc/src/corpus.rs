//! Valid messages covering every record kind, position and flag; seeds of the fault enumerations.
use crate::enc::*;

pub struct Seed {
    pub name: &'static str,
    pub b: Vec<u8>,
}

/// One raw value per primitive type.
pub fn raw(t: u8) -> Vec<u8> {
    match t {
        1 => vec![1],
        2 => vec![200],
        3 => "ß".into(),
        5 => lps(b"-12.50"),
        6 => 2.5f64.to_le_bytes().to_vec(),
        7 => (-2i16).to_le_bytes().to_vec(),
        8 => 70000i32.to_le_bytes().to_vec(),
        9 => (-5_000_000_000i64).to_le_bytes().to_vec(),
        10 => vec![0x85],
        11 => 0.5f32.to_le_bytes().to_vec(),
        12 => (-36_000_000_000i64).to_le_bytes().to_vec(),
        13 => ((1u64 << 62) | 637_000_000_000_000_000).to_le_bytes().to_vec(),
        14 => 65000u16.to_le_bytes().to_vec(),
        15 => 4_000_000_000u32.to_le_bytes().to_vec(),
        16 => u64::MAX.to_le_bytes().to_vec(),
        _ => unreachable!(),
    }
}
pub const PRIMS: [u8; 15] = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

pub fn seeds() -> Vec<Seed> {
    let mut v: Vec<Seed> = vec![];
    let mut add = |name: &'static str, b: Vec<u8>| v.push(Seed { name, b });
    let m = || E::msg(1);
    add("string", m().string(1, "hello").end());
    add("string empty", m().string(1, "").end());
    add("string utf8", m().string(1, "aé€𝄞").end());
    add("string 130", m().string(1, &"x".repeat(130)).end());
    add("strings, root last", E::msg(3).string(1, "a").string(2, "b").string(3, "c").end());
    add("obj array", m().arr_obj(1, 4).null().int(7).string(2, "s").r(2).end());
    add("obj array runs", m().arr_obj(1, 6).nulls8(2).int(1).nulls(3).end());
    add("obj array empty", m().arr_obj(1, 0).end());
    add("str array", m().arr_str(1, 4).string(2, "x").r(2).null().string(3, "").end());
    add("str array runs", m().arr_str(1, 5).nulls8(2).string(2, "x").nulls(2).end());
    add("jagged", m().bin_arr(1, 1, &[2], &[], &t_primarr(8)).r(2).r(3).arr_prim(2, 1, 8).i32(5).arr_prim(3, 2, 8).i32(6).i32(7).end());
    add("rect", m().bin_arr(1, 2, &[2, 2], &[], &t_prim(2)).raw(&[1, 2, 3, 4]).end());
    add("rect str", m().bin_arr(1, 2, &[2, 2], &[], &t_str()).string(2, "p").nulls8(2).r(2).end());
    add("rect offset", m().bin_arr(1, 5, &[1, 2], &[3, -0], &t_obj()).int(1).null().end());
    add("single offset", m().bin_arr(1, 3, &[2], &[7], &t_prim(7)).raw(&[1, 0, 2, 0]).end());
    add("jagged offset", m().bin_arr(1, 4, &[1], &[1], &t_objarr()).r(2).arr_obj(2, 1).null().end());
    add("array of class", m().lib(1, "L").bin_arr(1, 0, &[3], &[], &t_cls("A", 1)).null().cls(2, "A", &["x"], 1).int(1).r(3).byid(3, 2).int(2).end());
    add("array of sys", m().bin_arr(1, 0, &[2], &[], &t_sys("A")).sys(2, "A", &["x"]).null().byid(3, 2).int(4).end());
    add("array of str arrays", m().bin_arr(1, 1, &[2], &[], &t_strarr()).r(2).null().arr_str(2, 1).string(3, "z").end());
    add("sys class", m().sys(1, "A", &["x", "y"]).int(3).string(2, "v").end());
    add("sys class no members", m().sys(1, "A", &[]).end());
    add("class", m().lib(2, "Lib").cls(1, "A", &["x"], 2).null().end());
    add("sys class typed", m().syst(1, "A", &["i", "s", "o"], &[t_prim(8), t_str(), t_obj()]).i32(5).string(2, "q").int(6).end());
    add("class typed", m().lib(9, "Lib").clst(1, "B", &["b", "c"], &[t_prim(1), t_cls("C", 9)], 9).u8(1).clst(2, "C", &["z"], &[t_prim(2)], 9).u8(12).end());
    add("typed all slots", m().lib(1, "L").clst(1, "A", &["a", "b", "c", "d", "e", "f", "g", "h"], &[t_prim(16), t_str(), t_obj(), t_sys("S"), t_cls("C", 1), t_objarr(), t_strarr(), t_primarr(3)], 1)
        .raw(&raw(16)).string(2, "s").null().sys(3, "S", &["v"]).int(1).cls(4, "C", &[], 1).r(5).r(6).r(7)
        .arr_obj(5, 1).null().arr_str(6, 1).null().arr_prim(7, 2, 3).raw("xß".as_bytes()).end());
    add("by id", E::msg(3).sys(1, "A", &["x"]).int(3).byid(2, 1).int(4).arr_obj(3, 2).r(2).r(1).end());
    add("by id typed", E::msg(2).syst(1, "A", &["x", "y"], &[t_prim(2), t_str()]).u8(9).null().byid(2, 1).u8(12).string(3, "w").end());
    add("by id nested", m().lib(1, "L").clst(1, "N", &["v", "n"], &[t_prim(8), t_cls("N", 1)], 1).i32(1).byid(2, 1).i32(2).r(3).byid(3, 1).i32(3).null().end());
    add("by id negative", m().sys(-1, "A", &["x"]).int(3).byid(1, -1).int(4).end());
    add("two classes by id", E::msg(5).sys(1, "A", &["x"]).null().sys(2, "B", &["y", "z"]).null().null().byid(3, 1).int(1).byid(4, 2).int(2).int(3).arr_obj(5, 4).r(1).r(2).r(3).r(4).end());
    add("nested 3", m().sys(1, "A", &["a"]).sys(2, "B", &["b"]).sys(3, "C", &["c"]).int(1).end());
    add("forward refs", m().sys(1, "A", &["a", "b"]).r(3).r(2).string(2, "two").arr_obj(3, 1).r(4).string(4, "four").end());
    add("shared string", m().arr_str(1, 4).r(2).r(2).string(3, "i").r(3).string(2, "s").end());
    add("libs", m().lib(1, "L").cls(2, "A", &[], 1).lib(2, "M").arr_obj(1, 3).r(2).lib(3, "N").cls(3, "B", &[], 2).lib(4, "O").null().end());
    add("root behind others", E::msg(9).arr_obj(1, 1).null().sys(2, "A", &[]).string(9, "root").arr_prim(4, 1, 1).u8(0).end());
    let mut e = m().syst(1, "P", &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o"], &PRIMS.map(t_prim));
    for t in PRIMS {
        e = e.raw(&raw(t));
    }
    add("typed prims", e.end());
    let mut e = m().arr_obj(1, 15);
    for t in PRIMS {
        e = e.typed(t, &raw(t));
    }
    add("self-describing prims", e.end());
    let names: [&'static str; 15] = ["prim array bool", "prim array byte", "prim array char", "prim array dec", "prim array f64", "prim array i16", "prim array i32", "prim array i64", "prim array i8", "prim array f32", "prim array span", "prim array date", "prim array u16", "prim array u32", "prim array u64"];
    for (t, n) in PRIMS.into_iter().zip(names) {
        add(n, m().arr_prim(1, 2, t).raw(&raw(t)).raw(&raw(t)).end());
    }
    let bx: [(&'static str, u8); 12] = [("System.Boolean", 1), ("System.Byte", 2), ("System.Char", 3), ("System.Double", 6), ("System.Int16", 7), ("System.Int32", 8), ("System.Int64", 9), ("System.SByte", 10), ("System.Single", 11), ("System.UInt16", 14), ("System.UInt32", 15), ("System.UInt64", 16)];
    for (n, t) in bx {
        add(n, m().syst(1, n, &["m_value"], &[t_prim(t)]).raw(&raw(t)).end());
    }
    add("list", m().syst(1, "System.Collections.Generic.List`1[[System.Int32]]", &["_items", "_size", "_version"], &[t_primarr(8), t_prim(8), t_prim(8)]).r(2).i32(2).i32(2).arr_prim(2, 4, 8).i32(10).i32(20).i32(0).i32(0).end());
    add("list str", m().syst(1, "System.Collections.Generic.List`1[[System.String]]", &["_items", "_size", "_version"], &[t_strarr(), t_prim(8), t_prim(8)]).r(2).i32(1).i32(1).arr_str(2, 4).string(3, "e").nulls8(3).end());
    let z = || E::msg(0);
    add("call no args", z().call(0x11, "M", "T").end());
    add("call inline", z().call(0x12, "Method", "Type").i32(3).u8(8).i32(5).sc("a").u8(17).end());
    add("call context", z().call(0x21, "M", "T").sc("ctx").end());
    add("call context args", z().call(0x22, "M", "T").sc("ctx").i32(1).u8(1).u8(1).end());
    add("call array", m().call(0x14, "M", "T").arr_obj(1, 2).int(1).r(2).string(2, "x").end());
    add("call in array", m().call(0x18, "M", "T").arr_obj(1, 2).r(2).null().arr_obj(2, 2).int(1).int(2).end());
    add("call lib", m().lib(1, "L").call(0x14, "M", "T").lib(2, "L2").arr_obj(1, 1).cls(2, "A", &[], 1).end());
    add("call between", m().string(5, "before").call(0x14, "M", "T").arr_obj(1, 1).r(5).string(6, "after").end());
    add("ret void", z().ret(0x411).end());
    add("ret inline", z().ret(0x811).u8(8).i32(9).end());
    add("ret inline args ctx", z().ret(0x822).sc("r").sc("c").i32(2).u8(2).u8(1).u8(17).end());
    add("ret array", m().ret(0x1011).arr_obj(1, 1).int(4).end());
    add("ret args in array and value", m().ret(0x1018).arr_obj(1, 2).r(2).string(3, "rv").arr_prim(2, 2, 2).u8(1).u8(2).end());
    add("ret args array", m().ret(0x414).arr_obj(1, 2).null().int(2).end());
    add("ret exception", m().ret(0x2010).arr_obj(1, 1).sys(2, "E", &["m"]).string(3, "oops").end());
    v
}

