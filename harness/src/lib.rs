#![allow(static_mut_refs)]
pub mod sx;
pub mod jv;
pub mod rx;
pub mod val;
macro_rules! harnesses {
    ($($ft:literal $m:ident :: {$($f:ident),* $(,)?}),* $(,)?) => {
        $($( #[cfg(feature = $ft)] const _: () = { #[export_name = concat!("h_", stringify!($f))] pub extern "C" fn entry() { $m::$f() } }; )*)*
        #[cfg(feature = "native")]
        pub fn lookup(name: &str) -> Option<fn()> { match name { $($( #[cfg(feature = $ft)] stringify!($f) => Some($m::$f as fn()), )*)* _ => None } }
    };
}
#[cfg(any(feature = "c01", feature = "c02"))]
#[allow(dead_code, unused_imports)]
pub mod refs;
#[cfg(any(feature = "c03", feature = "c04", feature = "c05", feature = "c06"))]
#[allow(dead_code, unused_imports)]
pub mod gen;
#[cfg(any(feature = "c07", feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14"))]
#[allow(dead_code, unused_imports)]
pub mod tf;
#[cfg(any(feature = "c16", feature = "c17"))]
#[allow(dead_code, unused_imports)]
pub mod sc;
mod ty;
#[cfg(any(feature = "c15", feature = "c19", feature = "c20", feature = "c21", feature = "c22", feature = "c26", feature = "c28"))]
#[allow(dead_code, unused_imports)]
pub mod der;
#[cfg(any(feature = "c21", feature = "c26"))]
#[allow(dead_code, unused_imports)]
pub mod bi;
#[cfg(any(feature = "c15", feature = "c19", feature = "c20", feature = "c26"))]
#[allow(dead_code, unused_imports)]
pub mod types;
#[cfg(any(feature = "c19", feature = "c20"))]
#[allow(dead_code)]
pub mod combo;
#[cfg(feature = "c18")]
#[allow(dead_code, unused_imports)]
pub mod flat;
#[cfg(any(feature = "c22", feature = "c26"))]
#[allow(dead_code, unused_imports)]
pub mod tp;
#[cfg(feature = "c23")]
#[allow(dead_code, unused_imports)]
pub mod idn;
#[cfg(feature = "c24")]
#[allow(dead_code, unused_imports)]
pub mod es;
#[cfg(feature = "c25")]
#[allow(dead_code, unused_imports)]
pub mod va;
#[cfg(feature = "c26")]
#[allow(dead_code, unused_imports)]
pub mod wfh;
#[cfg(any(feature = "c27", feature = "c32"))]
#[allow(dead_code, unused_imports)]
pub mod an;
#[cfg(feature = "c28")]
#[allow(dead_code, unused_imports)]
pub mod ov;
#[cfg(feature = "c29")]
#[allow(dead_code, unused_imports)]
pub mod rp;
#[cfg(feature = "c30")]
#[allow(dead_code, unused_imports)]
pub mod rm;
#[cfg(feature = "c31")]
#[allow(dead_code, unused_imports)]
pub mod nm;
#[cfg(feature = "c33")]
#[allow(dead_code, unused_imports, deprecated)]
pub mod dfl;
#[allow(dead_code)]
pub mod wf;
#[allow(dead_code)]
pub mod dynty;
harnesses!(
    "c01" refs::{refs_utf8, refs_paths, refs_pair, refs_context},
    "c02" refs::{ptr_free, ptr_fragment, ptr_fragment_utf8, ptr_percent},
    "c03" gen::{ident_names, ident_any, ident_suffix, ident_clone, ident_take},
    "c04" gen::{closed_graph, closed_inline, closed_paths, closed_nested, closed_inline_setting},
    "c05" gen::{hist_repeat, hist_any, hist_transforms},
    "c06" gen::{inline_equiv, inline_mixed},
    "c07" tf::{visit_word, visit_key, visit_recursive, visit_order},
    "c08" tf::{bools_anywhere, bools_meaning, bools_near},
    "c09" tf::{refsib_anywhere, refsib_meaning, refsib_near},
    "c10" tf::{const_anywhere, const_meaning, const_near, example_anywhere},
    "c11" tf::{prefix_anywhere, prefix_meaning, prefix_near},
    "c12" tf::{nullable_anywhere, nullable_meaning, nullable_near},
    "c13" tf::{uneval_anywhere, uneval_names, uneval_meaning, uneval_near},
    "c14" tf::{formats_words, formats_allowed, formats_nested, formats_near},
    "c16" sc::{ser_keywords, ser_keys, ser_near, accept_value, accept_text, accessors},
    "c15" der::{dialects_structs, dialects_external, dialects_tagged, dialects_combined, dialects_untagged, dialects_flattened, openapi_root},
    "c18" flat::{flat_one, flat_two, flat_three, flat_deny, flat_variant, flat_rest},
    "c19" der::{structs, enums_external, enums_internal, enums_adjacent, enums_untagged, flattened, combined, containers, defaults, combo_structs, combo_enums, combo_enums2},
    "c20" der::{ser_structs, ser_external, ser_internal, ser_adjacent, ser_untagged, ser_flattened, ser_combined, ser_containers, ser_only, ser_combos, ser_combos2, ser_combos3},
    "c21" bi::{std_de, std_ser, std_ints, std_arrays, std_tuples, std_chars, std_maps, std_any_keys},
    "c22" tp::{tp_de, tp_ser, semver_text, decimal_text, decimal_number, decimal_written},
    "c23" idn::{id_std, id_more, id_derived, id_renamed, id_local},
    "c24" es::{ex_calls, ex_leaves, ex_nested, ex_mixed, ex_keys, ex_derived},
    "c25" va::{valid_everywhere, valid_each, valid_contains, valid_types, valid_required, valid_formats},
    "c26" wfh::{wf_odd, wf_types, wf_std, wf_any, wf_wrapped, wf_flatten},
    "c27" an::{on_fields, on_variants, on_containers, doc_text},
    "c32" an::{marks, titles},
    "c33" dfl::{default_values, default_unset},
    "c28" ov::{over_containers, over_variants, over_fields, over_places, over_ser},
    "c29" rp::{repr_ints, repr_within, repr_other, repr_values},
    "c30" rm::{root_parts, root_transforms, root_values},
    "c31" nm::{name_derived, name_std},
    "c17" sc::{option_one, option_two, option_box},
);
