//! Which enumerations decide which property.
use crate::harness::{Cx, Scope};
use crate::serde_suites as d;
use crate::suites as s;
use crate::{corpus, explore, history, meta, profiles, scaled, sequences};

pub const IDS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
    "C21", "C22", "C23", "C24", "C25", "C26",
];

const FRAME: &[&str] = &["no header", "negative root id", "not version 1.0", "trailing data", "incomplete"];
const PRIMITIVE: &[&str] = &["boolean is neither 0 nor 1", "char is not UTF-8", "not a decimal"];
const MEMBERS: &[&str] = &["accept", "null run in place of a member", "object without library", "duplicate member name"];
const IDENTIFIERS: &[&str] = &[
    "undefined library", "library used before its definition", "library id is not positive", "duplicate library id", "duplicate object id", "object id is not positive",
    "object id is zero", "metadata id defines no class", "invalid metadata id", "reference to an invalid id", "undefined reference",
];
const FLAGS: &[&str] = &["accept", "contradictory flags"];
const CODES: &[&str] = &[
    "unknown primitive type", "unknown member type", "unknown array kind", "record not allowed at top level", "record is no member", "array in place of a member",
    "null and string are no raw data", "no raw data of this type", "second method", "not a string", "accept",
];

fn focus(cx: &Cx, name: &str) {
    explore::explore(cx, &profiles::get(name, cx.thorough))
}

/// Runs everything that decides this property.
pub fn run(cx: &Cx, id: &str) {
    let all = || cx.scope(Scope::All);
    match id {
        "C01" => {
            cx.scope(Scope::CrashSerde);
            s::truncations(cx);
            s::substitutions(cx);
            s::indels(cx);
            s::windows(cx);
            s::scaled_faults(cx);
            s::spans(cx);
            s::short_inputs(cx);
            s::declared_sizes(cx);
            s::splices(cx);
            scaled::scale(cx);
            sequences::sequences(cx);
            s::graphs(cx);
            s::graph_chains(cx);
            s::odd_ids(cx);
            s::string_lengths(cx);
            s::string_prefixes(cx);
            s::string_utf8(cx);
            s::vocabulary(cx);
            s::shape_limits(cx);
            s::array_lengths(cx);
            s::slot_matrix(cx);
            s::codes(cx);
            focus(cx, if cx.thorough { "general deep" } else { "general" });
            for p in ["graph", "arrays", "shapes", "class ids", "calls", "returns"] {
                focus(cx, p)
            }
            if cx.thorough {
                s::double_substitutions(cx)
            }
        }
        "C02" => {
            cx.scope(Scope::Memory);
            s::declared_sizes(cx);
            s::linear_memory(cx);
            scaled::scale(cx);
            s::windows(cx);
            s::scaled_faults(cx);
            s::shape_limits(cx);
            s::string_prefixes(cx);
            s::class_sizes(cx);
            s::class_reuse_scale(cx);
            s::truncations(cx);
            s::substitutions(cx);
            s::array_lengths(cx);
            s::graph_chains(cx);
            focus(cx, "general");
            focus(cx, "arrays");
            focus(cx, "shapes");
        }
        "C03" => {
            all();
            scaled::sizes(cx, "C03");
            s::primitives(cx, &corpus::PRIMS, "primitive values in every position");
            s::prim_bulk(cx);
            focus(cx, "primitives");
            cx.scope(Scope::Reasons(PRIMITIVE));
            s::substitutions(cx);
            s::slot_matrix(cx);
        }
        "C04" => {
            cx.scope(Scope::Borrow);
            scaled::sizes(cx, "C04");
            s::string_lengths(cx);
            s::string_prefixes(cx);
            s::string_utf8(cx);
            s::vocabulary(cx);
            focus(cx, "strings");
        }
        "C05" => {
            all();
            s::header(cx);
            s::wrappings(cx);
            s::trailing(cx);
            s::truncations(cx);
            cx.scope(Scope::Reasons(FRAME));
            s::short_inputs(cx);
            s::substitutions(cx);
            s::indels(cx);
            s::spans(cx);
            s::splices(cx);
            focus(cx, "frame");
        }
        "C06" => {
            all();
            scaled::sizes(cx, "C06");
            sequences::sequences(cx);
            s::class_shapes(cx);
            s::class_sizes(cx);
            s::class_libs(cx);
            s::class_libs_typed(cx);
            s::similar_classes(cx);
            s::vocabulary(cx);
            cx.scope(Scope::Reasons(MEMBERS));
            focus(cx, "classes");
        }
        "C07" => {
            all();
            scaled::sizes(cx, "C07");
            sequences::sequences(cx);
            s::class_reuse(cx);
            s::class_reuse_nested(cx);
            s::similar_classes(cx);
            s::class_reuse_scale(cx);
            cx.scope(Scope::Reasons(&["accept", "metadata id defines no class", "invalid metadata id"]));
            focus(cx, "class ids");
        }
        "C08" => {
            all();
            scaled::sizes(cx, "C08");
            sequences::sequences(cx);
            s::array_runs(cx);
            s::array_lengths(cx);
            s::array_miscounts(cx);
            focus(cx, "arrays");
        }
        "C09" => {
            all();
            scaled::sizes(cx, "C09");
            s::shapes(cx);
            s::shape_runs(cx);
            s::shape_limits(cx);
            focus(cx, "shapes");
        }
        "C10" => {
            all();
            scaled::sizes(cx, "C10");
            sequences::sequences(cx);
            s::graphs(cx);
            s::graph_positions(cx);
            s::string_references(cx);
            s::graph_chains(cx);
            focus(cx, "graph");
        }
        "C11" => {
            all();
            scaled::sizes(cx, "C11");
            sequences::sequences(cx);
            s::roots(cx);
            cx.scope(Scope::Reasons(&["accept", "no object has the root id"]));
            focus(cx, "roots");
        }
        "C12" => {
            all();
            scaled::sizes(cx, "C12");
            sequences::sequences(cx);
            s::duplicate_ids(cx);
            s::library_ids(cx);
            s::odd_ids(cx);
            cx.scope(Scope::Reasons(IDENTIFIERS));
            s::class_reuse(cx);
            s::substitutions(cx);
            s::windows(cx);
            s::splices(cx);
            s::graphs(cx);
            focus(cx, "general");
            focus(cx, "class ids");
            focus(cx, "libraries");
            focus(cx, "ids");
        }
        "C13" => {
            all();
            scaled::sizes(cx, "C13");
            sequences::sequences(cx);
            s::library_places(cx);
            s::library_lookalikes(cx);
            s::class_libs(cx);
            s::class_libs_typed(cx);
            s::library_ids(cx);
            s::vocabulary(cx);
            focus(cx, "libraries");
        }
        "C14" | "C15" => {
            all();
            let call = id == "C14";
            scaled::sizes(cx, id);
            sequences::sequences(cx);
            s::method_inline(cx, call);
            s::method_flags_args(cx, call);
            s::method_context(cx, call);
            s::vocabulary(cx);
            focus(cx, if call { "calls" } else { "returns" });
        }
        "C16" => {
            cx.scope(Scope::Reasons(FLAGS));
            s::flag_words(cx, true);
            s::flag_words(cx, false);
        }
        "C17" => {
            all();
            s::codes(cx);
            cx.scope(Scope::Reasons(CODES));
            s::slot_matrix(cx);
            s::substitutions(cx);
            focus(cx, "codes");
        }
        "C18" => {
            all();
            scaled::sizes(cx, "C18");
            sequences::sequences(cx);
            s::special_slots(cx);
            s::slot_matrix(cx);
            s::vocabulary(cx);
            focus(cx, "slots");
        }
        "C19" => {
            all();
            d::scalars(cx, &corpus::PRIMS, "scalars into scalar types");
            d::boxed(cx);
            d::texts(cx);
            d::named(cx);
            d::near_names(cx);
            d::bytes(cx);
        }
        "C20" => {
            all();
            d::arrays(cx);
            d::lists(cx);
            d::long_lists(cx);
            d::trees(cx, if cx.thorough { 5 } else { 4 });
            d::named(cx);
            d::near_names(cx);
        }
        "C21" => {
            all();
            d::objects(cx);
            d::nulls(cx);
            d::trees(cx, 5);
            d::named(cx);
            d::near_names(cx);
        }
        "C22" => history::histories(cx),
        "C23" => {
            all();
            scaled::sizes(cx, "C23");
            meta::encodings(cx);
            meta::null_groups(cx);
        }
        "C24" => {
            all();
            d::ticks(cx);
            s::primitives(cx, &[12, 13], "date-times and time spans in every position");
        }
        "C26" => {
            cx.scope(Scope::Crash);
            crate::work::work(cx);
        }
        "C25" => {
            cx.scope(Scope::Agree);
            s::truncations(cx);
            s::substitutions(cx);
            s::wrappings(cx);
            s::trailing(cx);
            s::header(cx);
            s::short_inputs(cx);
            s::vocabulary(cx);
            sequences::sequences(cx);
            d::trees(cx, if cx.thorough { 5 } else { 4 });
            d::lists(cx);
            d::objects(cx);
            d::nulls(cx);
            s::flag_words(cx, true);
            s::flag_words(cx, false);
            s::roots(cx);
            s::graphs(cx);
            s::slot_matrix(cx);
            s::array_runs(cx);
            for p in ["general", "calls", "returns", "classes", "strings"] {
                focus(cx, p)
            }
        }
        _ => panic!("no such property: {id}"),
    }
}

/// The scope in which an input found by this property's check is judged again.
pub fn scope(id: &str) -> Scope {
    match id {
        "C01" => Scope::CrashSerde,
        "C02" => Scope::Memory,
        "C04" => Scope::Borrow,
        "C25" => Scope::Agree,
        "C26" => Scope::CrashSerde,
        _ => Scope::All,
    }
}
