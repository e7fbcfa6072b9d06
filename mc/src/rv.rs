//! The reference value domain: what a message means, independent of the implementation's types.
use nrbf::{RemotingMessage, Value, value::DateTimeKind};
use serde::Deserialize;

#[derive(Clone, Debug, PartialEq)]
pub enum RVal {
    Obj(RObj),
    Arr(Vec<RVal>),
    Bool(bool),
    Byte(u8),
    Char(char),
    Dec(String),
    F64(u64),
    I16(i16),
    I32(i32),
    I64(i64),
    I8(i8),
    F32(u32),
    TimeSpan(i64),
    DateTime(i64),
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Null,
    /// A decimal whose text is not canonical: any decimal is fine.
    DecAny,
    /// A multi-dimensional array without elements, whose shape is not specified.
    EmptyArr,
    /// Not specified.
    Any,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RObj {
    pub class: String,
    pub lib: Option<String>,
    pub members: Vec<(String, RVal)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RMsg {
    Value(RVal),
    Call { name: String, ty: String, ctx: Option<String>, args: Option<Vec<RVal>> },
    Ret { ret: Option<RVal>, ctx: Option<String>, args: Option<Vec<RVal>> },
}

/// The decimal's text, observed through the public API only.
pub fn dec_string(v: &Value<'_>) -> Option<String> {
    String::deserialize(RemotingMessage::Value(v.clone())).ok()
}

fn no_leaves(v: &Value<'_>) -> bool {
    match v {
        Value::Array(a) => a.iter().all(no_leaves),
        _ => false,
    }
}

pub fn matches(v: &Value<'_>, r: &RVal) -> bool {
    match (v, r) {
        (_, RVal::Any) => true,
        (v, RVal::EmptyArr) => no_leaves(v),
        (Value::Decimal(_), RVal::DecAny) => true,
        (Value::Decimal(_), RVal::Dec(s)) => dec_string(v).as_ref() == Some(s),
        (Value::Object(o), RVal::Obj(r)) => {
            o.class == r.class
                && o.library == r.lib.as_deref()
                && o.members.len() == r.members.len()
                && r.members.iter().all(|(k, v)| o.members.get(k.as_str()).is_some_and(|m| matches(m, v)))
        }
        (Value::Array(a), RVal::Arr(r)) => a.len() == r.len() && a.iter().zip(r).all(|(a, r)| matches(a, r)),
        (Value::Boolean(a), RVal::Bool(b)) => a == b,
        (Value::Byte(a), RVal::Byte(b)) => a == b,
        (Value::Char(a), RVal::Char(b)) => a == b,
        (Value::Double(a), RVal::F64(b)) => a.to_bits() == *b,
        (Value::Int16(a), RVal::I16(b)) => a == b,
        (Value::Int32(a), RVal::I32(b)) => a == b,
        (Value::Int64(a), RVal::I64(b)) => a == b,
        (Value::SByte(a), RVal::I8(b)) => a == b,
        (Value::Single(a), RVal::F32(b)) => a.to_bits() == *b,
        (Value::TimeSpan(a), RVal::TimeSpan(b)) => a.value() == *b,
        (Value::DateTime(a), RVal::DateTime(b)) => {
            let kind = match a.kind() {
                None => 0,
                Some(DateTimeKind::Utc) => 1,
                Some(DateTimeKind::Local) => 2,
            };
            let want = match (*b as u64) >> 62 {
                3 => 0,
                k => k,
            };
            a.ticks() == *b & 0x3fff_ffff_ffff_ffff && kind == want
        }
        (Value::UInt16(a), RVal::U16(b)) => a == b,
        (Value::UInt32(a), RVal::U32(b)) => a == b,
        (Value::UInt64(a), RVal::U64(b)) => a == b,
        (Value::String(a), RVal::Str(b)) => a == b,
        (Value::Null, RVal::Null) => true,
        _ => false,
    }
}

fn matches_args(a: &Option<Vec<Value<'_>>>, r: &Option<Vec<RVal>>) -> bool {
    match (a, r) {
        (None, None) => true,
        (Some(a), Some(r)) => a.len() == r.len() && a.iter().zip(r).all(|(a, r)| matches(a, r)),
        _ => false,
    }
}

pub fn matches_msg(m: &RemotingMessage<'_>, r: &RMsg) -> bool {
    match (m, r) {
        (RemotingMessage::Value(v), RMsg::Value(r)) => matches(v, r),
        (_, RMsg::Value(RVal::Any)) => true,
        (RemotingMessage::MethodCall(c), RMsg::Call { name, ty, ctx, args }) => {
            c.method_name == name
                && c.type_name == ty
                && c.call_context == ctx.as_deref()
                && matches_args(&c.args, args)
        }
        (RemotingMessage::MethodReturn(c), RMsg::Ret { ret, ctx, args }) => {
            (match (&c.return_value, ret) {
                (_, Some(RVal::Any)) => true,
                (None, None) => true,
                (Some(a), Some(b)) => matches(a, b),
                _ => false,
            }) && c.call_context == ctx.as_deref()
                && matches_args(&c.args, args)
        }
        _ => false,
    }
}

/// Calls `f` for every string slice in a result.
pub fn strings<'i>(v: &Value<'i>, f: &mut dyn FnMut(&'i str)) {
    match v {
        Value::String(s) => f(s),
        Value::Array(a) => a.iter().for_each(|v| strings(v, f)),
        Value::Object(o) => {
            f(o.class);
            if let Some(l) = o.library {
                f(l)
            }
            for (k, v) in &o.members {
                f(k);
                strings(v, f)
            }
        }
        _ => (),
    }
}

pub fn strings_msg<'i>(m: &RemotingMessage<'i>, f: &mut dyn FnMut(&'i str)) {
    match m {
        RemotingMessage::Value(v) => strings(v, f),
        RemotingMessage::MethodCall(c) => {
            f(c.method_name);
            f(c.type_name);
            if let Some(c) = c.call_context {
                f(c)
            }
            c.args.iter().flatten().for_each(|v| strings(v, f))
        }
        RemotingMessage::MethodReturn(c) => {
            if let Some(v) = &c.return_value {
                strings(v, f)
            }
            if let Some(c) = c.call_context {
                f(c)
            }
            c.args.iter().flatten().for_each(|v| strings(v, f))
        }
    }
}

/// Number of values a result consists of (elements, members and nested values).
pub fn count_nodes(v: &Value<'_>) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count_nodes).sum(),
        Value::Object(o) => o.members.values().map(count_nodes).sum(),
        _ => 0,
    }
}

/// Everything a result shows, in a form that does not depend on the order of its members.
pub fn canon(v: &Value<'_>, out: &mut String) {
    use std::fmt::Write;
    match v {
        Value::Array(a) => {
            out.push('[');
            for v in a {
                canon(v, out);
                out.push(',')
            }
            out.push(']')
        }
        Value::Object(o) => {
            write!(out, "{:?}@{:?}{{", o.class, o.library).unwrap();
            let mut m: Vec<_> = o.members.iter().collect();
            m.sort_by_key(|m| *m.0);
            for (k, v) in m {
                write!(out, "{k:?}:").unwrap();
                canon(v, out);
                out.push(',')
            }
            out.push('}')
        }
        Value::Double(f) => write!(out, "f64:{:x}", f.to_bits()).unwrap(),
        Value::Single(f) => write!(out, "f32:{:x}", f.to_bits()).unwrap(),
        Value::Decimal(_) => write!(out, "decimal:{:?}", dec_string(v)).unwrap(),
        Value::DateTime(d) => write!(out, "date:{}:{}", d.ticks(), match d.kind() {
            None => 0,
            Some(DateTimeKind::Utc) => 1,
            Some(DateTimeKind::Local) => 2,
        })
        .unwrap(),
        Value::TimeSpan(t) => write!(out, "span:{}", t.value()).unwrap(),
        v => write!(out, "{v:?}").unwrap(),
    }
}
pub fn canon_msg(m: &RemotingMessage<'_>) -> String {
    let mut out = String::new();
    let args = |a: &Option<Vec<Value<'_>>>, out: &mut String| match a {
        None => out.push('-'),
        Some(a) => canon(&Value::Array(a.clone()), out),
    };
    match m {
        RemotingMessage::Value(v) => canon(v, &mut out),
        RemotingMessage::MethodCall(c) => {
            out += &format!("call {:?} {:?} {:?} ", c.method_name, c.type_name, c.call_context);
            args(&c.args, &mut out)
        }
        RemotingMessage::MethodReturn(c) => {
            out += &format!("return {:?} ", c.call_context);
            match &c.return_value {
                None => out.push('-'),
                Some(v) => canon(v, &mut out),
            }
            out.push(' ');
            args(&c.args, &mut out)
        }
    }
    out
}
