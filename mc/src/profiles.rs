//! Focused explorations: fewer kinds of fields vary, so that paths with more deviations can be visited.
use crate::explore::{ALL_SLOT, ALL_TOP, Cost, Profile, general};
use crate::model::{Exp, Role::*, TagCtx};

fn dev(yes: bool) -> Cost {
    if yes { Cost::Dev } else { Cost::Never }
}
fn i32s(v: &[i32]) -> Option<Vec<Vec<u8>>> {
    Some(v.iter().map(|n| n.to_le_bytes().to_vec()).collect())
}
fn u8s(v: &[u8]) -> Option<Vec<Vec<u8>>> {
    Some(v.iter().map(|n| vec![*n]).collect())
}

macro_rules! profile {
    ($name:literal, $budget:expr, top $top:expr, slot $slot:expr, roots $roots:expr, depth $depth:literal, max_top $mt:literal, fields $mf:literal, vary $vary:pat, values $v:expr) => {
        Profile {
            budget: $budget,
            top_tags: $top,
            slot_tags: $slot,
            roots: $roots,
            max_depth: $depth,
            max_top: $mt,
            max_fields: $mf,
            cost: |e| dev(matches!(e, $vary)),
            values: $v,
            ..general($name)
        }
    };
}

pub fn get(name: &str, thorough: bool) -> Profile {
    let b = |q: u32, t: u32| if thorough { t } else { q };
    match name {
        "general" => Profile { budget: b(2, 3), ..general("all fields, few deviations") },
        "general deep" => Profile { budget: b(3, 4), ..general("all fields, more deviations") },
        "graph" => profile!("objects, ids and references", b(5, 6), top &[16, 6, 2, 11], slot &[9, 6, 10, 2], roots &[1, 2, 3],
            depth 3, max_top 4, fields 40,
            vary Exp::Tag(TagCtx::Top | TagCtx::Slot(..)) | Exp::I32(RootId | TopId | ArrId | StrId | ClassId | InlineStrId | InlineClassId | RefId | ArrLen),
            values |e| match e { Exp::I32(ArrLen) => i32s(&[1, 2, 3]), _ => None }),
        "roots" => profile!("roots among several top-level objects", b(6, 8), top &[16, 15, 17, 6, 2, 4, 7, 12, 11], slot &[10], roots &[1, 2, 3, 4, 5, 0, -1, 257],
            depth 2, max_top 5, fields 60,
            vary Exp::Tag(TagCtx::Top) | Exp::I32(RootId | TopId | ArrId | StrId | ClassId),
            values |e| match e { Exp::I32(ArrLen | MemberCount | DimLen) => i32s(&[0]), Exp::I32(Rank) => i32s(&[1]), _ => None }),
        "classes" => profile!("classes and their members", b(4, 5), top &[2, 3, 4, 5, 12, 6, 11], slot &[8, 10, 6, 2, 3, 4, 5, 9], roots &[1],
            depth 3, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::TopAfterLib | TagCtx::Slot(..)) | Exp::I32(MemberCount | LibUse | LibDef) | Exp::U8(BinType | PrimCode) | Exp::Str(ClassName | MemberName | LibName),
            values |e| match e { Exp::I32(MemberCount) => i32s(&[1, 0, 2, 3]), Exp::U8(PrimCode) => u8s(&[8, 1, 16, 3]), _ => None }),
        "class ids" => profile!("class definitions and re-uses", b(5, 6), top &[2, 4, 1, 11, 6, 16], slot &[1, 2, 4, 10, 6], roots &[1, 2],
            depth 3, max_top 4, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::Slot(..)) | Exp::I32(MetaId | MemberCount | ClassId | InlineClassId | RootId) | Exp::U8(BinType),
            values |e| match e { Exp::I32(MemberCount) => i32s(&[1, 0, 2]), Exp::U8(BinType) => u8s(&[0, 1, 2]), _ => None }),
        "libraries" => profile!("libraries and classes bound to them", b(5, 6), top &[12, 3, 5, 2, 16, 21, 11], slot &[12, 3, 5, 10, 2], roots &[1],
            depth 3, max_top 5, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::TopAfterLib | TagCtx::Slot(..) | TagCtx::SlotAfterLib(..)) | Exp::I32(LibDef | LibUse | SlotLib) | Exp::U8(BinType) | Exp::Str(LibName),
            values |e| match e { Exp::U8(BinType) => u8s(&[0, 2, 4]), Exp::I32(Flags) => i32s(&[0x11]), _ => None }),
        "arrays" => profile!("arrays, null runs and shapes", b(4, 5), top &[16, 17, 15, 7, 11], slot &[10, 13, 14, 6, 8, 9], roots &[1],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::Slot(..)) | Exp::I32(ArrLen | NullCount | DimLen | Rank) | Exp::U8(NullCount8 | ArrKind | BinType),
            values |e| match e { Exp::I32(ArrLen) => i32s(&[1, 0, 2, 3, 4, -1]), Exp::I32(NullCount) => i32s(&[1, 2, 3, 4, 0, 256, -1]), Exp::U8(NullCount8) => u8s(&[1, 2, 3, 4, 0, 255]), _ => None }),
        "shapes" => profile!("rectangular arrays", b(6, 7), top &[7], slot &[10, 13, 14, 8], roots &[1],
            depth 2, max_top 1, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::Slot(..)) | Exp::I32(NullCount | DimLen | Rank | LowerBound) | Exp::U8(NullCount8 | ArrKind | BinType),
            values |e| match e { Exp::Tag(TagCtx::Top) => u8s(&[11, 7]), Exp::I32(Rank) => i32s(&[2, 1, 3, 4]), Exp::I32(DimLen) => i32s(&[2, 1, 3, 0, -1]), Exp::I32(NullCount) => i32s(&[1, 2, 3, 4, 5, 6]), Exp::U8(NullCount8) => u8s(&[1, 2, 3, 4, 5]), Exp::U8(BinType) => u8s(&[0, 2, 1]), _ => None }),
        "calls" => profile!("method calls", b(5, 6), top &[21, 16, 12, 15, 17, 6, 2, 11], slot &[10, 9, 6, 8, 2], roots &[1, 0],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::AfterMethod | TagCtx::TopAfterLib | TagCtx::Slot(..)) | Exp::I32(Flags | ArgsLen | CallArrId | ArrLen | RootId | RefId | ArrId) | Exp::U8(ValueCode) | Exp::Str(MethodName | TypeName | Context | ArgStr),
            values |e| match e { Exp::Tag(TagCtx::Top) => u8s(&[21, 16, 12, 6, 11]), Exp::I32(Flags) => i32s(&[0x11, 0x14, 0x18, 0x12, 0x21, 0x22, 0x41, 0x48, 0x8011, 0x8014, 0x54, 0x52, 1]), Exp::U8(ValueCode) => u8s(&[8, 18, 17, 1, 3]), Exp::I32(ArrLen) => i32s(&[1, 0, 2, 3]), _ => None }),
        "returns" => profile!("method returns", b(5, 6), top &[22, 16, 12, 15, 17, 6, 2, 11], slot &[10, 9, 6, 8, 2], roots &[1, 0],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::AfterMethod | TagCtx::TopAfterLib | TagCtx::Slot(..)) | Exp::I32(Flags | ArgsLen | CallArrId | ArrLen | RootId | RefId | ArrId) | Exp::U8(ValueCode) | Exp::Str(Context | ArgStr),
            values |e| match e { Exp::Tag(TagCtx::Top) => u8s(&[22, 16, 12, 6, 11]), Exp::I32(Flags) => i32s(&[0x811, 0x414, 0x418, 0x1014, 0x1011, 0x1018, 0x812, 0x821, 0x822, 0x1022, 0x1054, 0x211, 0x2011, 0x218, 1]), Exp::U8(ValueCode) => u8s(&[8, 18, 17, 1, 3]), Exp::I32(ArrLen) => i32s(&[1, 0, 2, 3]), _ => None }),
        "slots" => profile!("declared types and the records that fill them", b(4, 5), top &[4, 5, 7, 12, 6, 16, 15, 17, 11], slot ALL_SLOT, roots &[1],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::TopAfterLib | TagCtx::Slot(..) | TagCtx::SlotAfterLib(..)) | Exp::I32(LibUse | SlotLib | MetaId | RefId) | Exp::U8(BinType | PrimCode | ArrKind) | Exp::Str(ClassName | SlotClass),
            values |e| match e { Exp::U8(PrimCode) => u8s(&[8, 2]), _ => None }),
        "strings" => profile!("strings everywhere", b(4, 5), top &[6, 17, 5, 4, 12, 21, 22, 11], slot &[6, 9, 10], roots &[1, 0],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::TopAfterLib | TagCtx::Slot(..)) | Exp::Str(_) | Exp::I32(Flags | ArgsLen) | Exp::U8(ValueCode | BinType),
            values |e| match e { Exp::I32(Flags) => i32s(&[0x11, 0x12, 0x22, 0x822]), Exp::U8(ValueCode) => u8s(&[18, 5, 3]), Exp::U8(BinType) => u8s(&[1, 2, 3, 4]), _ => None }),
        "primitives" => profile!("primitive values everywhere", b(4, 5), top &[15, 7, 4, 2, 16, 21, 22, 1, 11], slot &[8, 10, 1, 4], roots &[1, 0],
            depth 2, max_top 3, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::Slot(..)) | Exp::Prim(_) | Exp::U8(PrimCode | ValueCode | ArrKind) | Exp::I32(Flags | MemberCount),
            values |e| match e { Exp::I32(Flags) => i32s(&[0x12, 0x811, 0x812]), Exp::U8(ArrKind) => u8s(&[2, 0, 5]), Exp::U8(BinType) => u8s(&[0]), _ => None }),
        "frame" => profile!("header, records and end", b(5, 6), top ALL_TOP, slot &[10, 11, 0], roots &[1, 0, -1, 2, i32::MIN, i32::MAX, 256],
            depth 2, max_top 4, fields 60,
            vary Exp::Tag(TagCtx::Header | TagCtx::Top | TagCtx::TopAfterLib | TagCtx::AfterMethod) | Exp::I32(RootId | HeaderId | Major | Minor),
            values |e| match e { Exp::I32(Flags) => i32s(&[0x11]), _ => None }),
        "codes" => profile!("codes of records, types and array kinds", b(4, 5), top ALL_TOP, slot ALL_SLOT, roots &[1],
            depth 3, max_top 3, fields 60,
            vary Exp::Tag(_) | Exp::U8(BinType | PrimCode | ArrKind | ValueCode) | Exp::StrCode(_) | Exp::I32(Flags),
            values |e| match e { Exp::I32(Flags) => i32s(&[0x11, 0x12, 0x811, 0x14]), _ => None }),
        "ids" => profile!("ids of all kinds", b(4, 5), top &[6, 16, 2, 5, 1, 7, 12, 21, 11], slot &[6, 9, 2, 1, 5, 10, 12], roots &[1, 2],
            depth 3, max_top 4, fields 60,
            vary Exp::Tag(TagCtx::Top | TagCtx::TopAfterLib | TagCtx::Slot(..) | TagCtx::SlotAfterLib(..)) | Exp::I32(TopId | ArrId | StrId | ClassId | InlineStrId | InlineClassId | RefId | MetaId | LibDef | LibUse | SlotLib | CallArrId),
            values |e| match e { Exp::I32(Flags) => i32s(&[0x14, 0x11]), Exp::U8(BinType) => u8s(&[2, 4]), Exp::I32(Rank | DimLen) => i32s(&[1]), Exp::U8(ArrKind) => u8s(&[0]), _ => None }),
        _ => panic!("no such profile: {name}"),
    }
}
pub const NAMES: [&str; 18] = [
    "general", "general deep", "graph", "roots", "classes", "class ids", "libraries", "arrays", "shapes", "calls", "returns", "slots", "strings", "primitives", "frame", "codes", "ids", "general",
];
