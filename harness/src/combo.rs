//! Attributes in all combinations (generated once by hand-written lists; the types are plain Rust).
use crate::der::{Ty, EXACT, SCHEMA_LENIENT, SERDE_LENIENT};
use crate::ty;
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, JsonSchema, Default)]
pub struct P {
    x: bool,
    #[serde(default)]
    y: Option<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema, Default)]
#[serde(deny_unknown_fields)]
pub struct D {
    v: bool,
    w: Option<bool>,
}
fn no(b: &bool) -> bool {
    !*b
}
macro_rules! structs {
    ($($m:ident [$($c:meta),*] [$($f:tt)*])*) => { $(
        pub mod $m {
            use super::*;
            #[derive(Serialize, Deserialize, JsonSchema, Default)]
            $(#[$c])*
            pub struct X {
                fld_a: bool,
                #[serde(default)]
                b: bool,
                c: Option<bool>,
                #[serde(rename = "Dd", default, skip_serializing_if = "no")]
                d: bool,
                #[serde(skip)]
                s: u8,
                $($f)*
            }
        }
    )* };
}
macro_rules! enums {
    ($($m:ident [$($c:meta),*] [$($f:tt)*])*) => { $(
        pub mod $m {
            use super::*;
            #[derive(Serialize, Deserialize, JsonSchema)]
            $(#[$c])*
            pub enum X {
                UnitOne,
                NewP(P),
                NewD(D),
                StruOne {
                    fld_a: bool,
                    #[serde(default)]
                    b: bool,
                    c: Option<bool>,
                },
                FlatOne {
                    fld_g: bool,
                    #[serde(flatten)]
                    p: P,
                },
                #[serde(rename = "R")]
                Ren {
                    #[serde(rename = "q")]
                    z: bool,
                },
                #[serde(skip)]
                Gone(u8),
                #[serde(rename_all = "UPPERCASE")]
                Own {
                    ab: bool,
                    cd: Option<bool>,
                },
                $($f)*
            }
        }
    )* };
}

structs! {
    s_plain [] []
    s_plain_p [] [#[serde(flatten)] p: P]
    s_plain_m [] [#[serde(flatten)] p: BTreeMap<String, bool>]
    s_plain_d [] [#[serde(flatten)] p: D]
    s_plain_o [] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_dfl [serde(default)] []
    s_dfl_p [serde(default)] [#[serde(flatten)] p: P]
    s_dfl_m [serde(default)] [#[serde(flatten)] p: BTreeMap<String, bool>]
    s_dfl_d [serde(default)] [#[serde(flatten)] p: D]
    s_dfl_o [serde(default)] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_deny [serde(deny_unknown_fields)] []
    s_deny_p [serde(deny_unknown_fields)] [#[serde(flatten)] p: P]
    s_deny_m [serde(deny_unknown_fields)] [#[serde(flatten)] p: BTreeMap<String, bool>]
    s_deny_d [serde(deny_unknown_fields)] [#[serde(flatten)] p: D]
    s_deny_o [serde(deny_unknown_fields)] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_dfl_deny [serde(default), serde(deny_unknown_fields)] []
    s_dfl_deny_p [serde(default), serde(deny_unknown_fields)] [#[serde(flatten)] p: P]
    s_dfl_deny_m [serde(default), serde(deny_unknown_fields)] [#[serde(flatten)] p: BTreeMap<String, bool>]
    s_dfl_deny_d [serde(default), serde(deny_unknown_fields)] [#[serde(flatten)] p: D]
    s_dfl_deny_o [serde(default), serde(deny_unknown_fields)] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_up [serde(rename_all = "UPPERCASE")] []
    s_up_p [serde(rename_all = "UPPERCASE")] [#[serde(flatten)] p: P]
    s_up_m [serde(rename_all = "UPPERCASE")] [#[serde(flatten)] p: BTreeMap<String, bool>]
    s_up_d [serde(rename_all = "UPPERCASE")] [#[serde(flatten)] p: D]
    s_up_o [serde(rename_all = "UPPERCASE")] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_tag [serde(tag = "kind")] []
    s_tag_p [serde(tag = "kind")] [#[serde(flatten)] p: P]
    s_tag_d [serde(tag = "kind")] [#[serde(flatten)] p: D]
    s_tag_o [serde(tag = "kind")] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_tag_deny [serde(tag = "kind"), serde(deny_unknown_fields)] []
    s_tag_deny_p [serde(tag = "kind"), serde(deny_unknown_fields)] [#[serde(flatten)] p: P]
    s_tag_deny_d [serde(tag = "kind"), serde(deny_unknown_fields)] [#[serde(flatten)] p: D]
    s_tag_deny_o [serde(tag = "kind"), serde(deny_unknown_fields)] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
    s_all [serde(tag = "kind"), serde(deny_unknown_fields), serde(default), serde(rename_all = "UPPERCASE")] []
    s_all_p [serde(tag = "kind"), serde(deny_unknown_fields), serde(default), serde(rename_all = "UPPERCASE")] [#[serde(flatten)] p: P]
    s_all_d [serde(tag = "kind"), serde(deny_unknown_fields), serde(default), serde(rename_all = "UPPERCASE")] [#[serde(flatten)] p: D]
    s_all_o [serde(tag = "kind"), serde(deny_unknown_fields), serde(default), serde(rename_all = "UPPERCASE")] [#[serde(flatten)] o: Option<D>, #[serde(flatten)] p: P]
}

#[rustfmt::skip]
pub const COMBO_STRUCTS: &[Ty] = &[
    ty!(s_plain::X, [{"fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_plain_p::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_plain_m::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true}]),
    ty!(s_plain_d::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_plain_o::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_dfl::X, [{"fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_dfl_p::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_dfl_m::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true}]),
    ty!(s_dfl_d::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_dfl_o::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_deny::X, [{"fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_deny_p::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_deny_m::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true}]),
    ty!(s_deny_d::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_deny_o::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_dfl_deny::X, [{"fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_dfl_deny_p::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_dfl_deny_m::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true}]),
    ty!(s_dfl_deny_d::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_dfl_deny_o::X, [{"fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_up::X, [{"FLD_A": true, "B": true, "C": true, "Dd": true}]),
    ty!(s_up_p::X, [{"FLD_A": true, "B": true, "C": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_up_m::X, [{"FLD_A": true, "B": true, "C": true, "Dd": true, "x": true}]),
    ty!(s_up_d::X, [{"FLD_A": true, "B": true, "C": true, "Dd": true, "v": true}]),
    ty!(lenient s_up_o::X, [{"FLD_A": true, "B": true, "C": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_tag::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_tag_p::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_tag_d::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_tag_o::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_tag_deny::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true}]),
    ty!(s_tag_deny_p::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_tag_deny_d::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "v": true}]),
    ty!(lenient s_tag_deny_o::X, [{"kind": "X", "fld_a": true, "b": true, "c": true, "Dd": true, "x": true, "v": true}]),
    ty!(s_all::X, [{"kind": "X", "FLD_A": true, "B": true, "C": true, "Dd": true}]),
    ty!(s_all_p::X, [{"kind": "X", "FLD_A": true, "B": true, "C": true, "Dd": true, "x": true, "y": true}]),
    ty!(s_all_d::X, [{"kind": "X", "FLD_A": true, "B": true, "C": true, "Dd": true, "v": true}]),
    ty!(lenient s_all_o::X, [{"kind": "X", "FLD_A": true, "B": true, "C": true, "Dd": true, "x": true, "v": true}]),
];

enums! {
    ext [] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, #[serde(untagged)] UntT(u8, u8),]
    ext_deny [serde(deny_unknown_fields)] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, #[serde(untagged)] UntT(u8, u8),]
    ext_all [serde(deny_unknown_fields), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, #[serde(untagged)] UntT(u8, u8),]
    ext_ren [serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, #[serde(untagged)] UntT(u8, u8),]
    int [serde(tag = "t")] [#[serde(untagged)] Unt { u: bool }, ]
    int_deny [serde(tag = "t"), serde(deny_unknown_fields)] [#[serde(untagged)] Unt { u: bool }, ]
    int_all [serde(tag = "t"), serde(deny_unknown_fields), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [#[serde(untagged)] Unt { u: bool }, ]
    int_ren [serde(tag = "t"), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [#[serde(untagged)] Unt { u: bool }, ]
    adj [serde(tag = "t"), serde(content = "c")] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, ]
    adj_deny [serde(tag = "t"), serde(content = "c"), serde(deny_unknown_fields)] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, ]
    adj_all [serde(tag = "t"), serde(content = "c"), serde(deny_unknown_fields), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, ]
    adj_ren [serde(tag = "t"), serde(content = "c"), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), #[serde(untagged)] Unt { u: bool }, ]
    unt [serde(untagged)] [Tup(String, Option<String>), ]
    unt_deny [serde(untagged), serde(deny_unknown_fields)] [Tup(String, Option<String>), ]
    unt_all [serde(untagged), serde(deny_unknown_fields), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), ]
    unt_ren [serde(untagged), serde(rename_all = "kebab-case"), serde(rename_all_fields = "UPPERCASE")] [Tup(String, Option<String>), ]
}

/// (serde does not look at the other entries of an internally tagged unit variant, and takes any content of adjacently tagged ones as it likes)
fn unit(j: &Value) -> bool {
    j["t"] == "UnitOne" || j["t"] == "unit-one"
}
fn unit_in(j: &Value) -> u8 {
    if unit(j) { SERDE_LENIENT } else { EXACT }
}
fn unit_of(j: &Value) -> u8 {
    if unit(j) && j.get("c").is_some() { SCHEMA_LENIENT | SERDE_LENIENT } else { EXACT }
}

#[rustfmt::skip]
pub const COMBO_ENUMS: &[Ty] = &[
    ty!(ext::X, ["UnitOne", {"NewP": {"x": true, "y": true}}, {"NewD": {"v": true, "w": true}}, {"StruOne": {"fld_a": true, "b": true, "c": true}}, {"FlatOne": {"fld_g": true, "x": true}}, {"R": {"q": true}}, {"Own": {"AB": true, "CD": true}}, {"Tup": ["q", "r"]}, {"u": true}, [1, 2]]),
    ty!(ext_deny::X, ["UnitOne", {"NewP": {"x": true, "y": true}}, {"NewD": {"v": true, "w": true}}, {"StruOne": {"fld_a": true, "b": true, "c": true}}, {"FlatOne": {"fld_g": true, "x": true}}, {"R": {"q": true}}, {"Own": {"AB": true, "CD": true}}, {"Tup": ["q", "r"]}, {"u": true}, [1, 2]]),
    ty!(ext_all::X, ["unit-one", {"new-p": {"x": true, "y": true}}, {"new-d": {"v": true, "w": true}}, {"stru-one": {"FLD_A": true, "B": true, "C": true}}, {"flat-one": {"FLD_G": true, "x": true}}, {"R": {"q": true}}, {"own": {"AB": true, "CD": true}}, {"tup": ["q", "r"]}, {"u": true}, [1, 2]]),
    ty!(int::X, quirk |j| unit_in(j), [{"t": "UnitOne"}, {"t": "NewP", "x": true, "y": true}, {"t": "NewD", "v": true, "w": true}, {"t": "StruOne", "fld_a": true, "b": true, "c": true}, {"t": "FlatOne", "fld_g": true, "x": true}, {"t": "R", "q": true}, {"t": "Own", "AB": true, "CD": true}, {"u": true}]),
    ty!(int_deny::X, quirk |j| unit_in(j), [{"t": "UnitOne"}, {"t": "NewP", "x": true, "y": true}, {"t": "NewD", "v": true, "w": true}, {"t": "StruOne", "fld_a": true, "b": true, "c": true}, {"t": "FlatOne", "fld_g": true, "x": true}, {"t": "R", "q": true}, {"t": "Own", "AB": true, "CD": true}, {"u": true}]),
    ty!(int_all::X, quirk |j| unit_in(j), [{"t": "unit-one"}, {"t": "new-p", "x": true, "y": true}, {"t": "new-d", "v": true, "w": true}, {"t": "stru-one", "FLD_A": true, "B": true, "C": true}, {"t": "flat-one", "FLD_G": true, "x": true}, {"t": "R", "q": true}, {"t": "own", "AB": true, "CD": true}, {"u": true}]),
    ty!(adj::X, quirk |j| unit_of(j), [{"t": "UnitOne"}, {"t": "NewP", "c": {"x": true, "y": true}}, {"t": "NewD", "c": {"v": true, "w": true}}, {"t": "StruOne", "c": {"fld_a": true, "b": true, "c": true}}, {"t": "FlatOne", "c": {"fld_g": true, "x": true}}, {"t": "R", "c": {"q": true}}, {"t": "Own", "c": {"AB": true, "CD": true}}, {"t": "Tup", "c": ["q", "r"]}, {"u": true}]),
    ty!(adj_deny::X, quirk |j| unit_of(j), [{"t": "UnitOne"}, {"t": "NewP", "c": {"x": true, "y": true}}, {"t": "NewD", "c": {"v": true, "w": true}}, {"t": "StruOne", "c": {"fld_a": true, "b": true, "c": true}}, {"t": "FlatOne", "c": {"fld_g": true, "x": true}}, {"t": "R", "c": {"q": true}}, {"t": "Own", "c": {"AB": true, "CD": true}}, {"t": "Tup", "c": ["q", "r"]}, {"u": true}]),
    ty!(adj_all::X, quirk |j| unit_of(j), [{"t": "unit-one"}, {"t": "new-p", "c": {"x": true, "y": true}}, {"t": "new-d", "c": {"v": true, "w": true}}, {"t": "stru-one", "c": {"FLD_A": true, "B": true, "C": true}}, {"t": "flat-one", "c": {"FLD_G": true, "x": true}}, {"t": "R", "c": {"q": true}}, {"t": "own", "c": {"AB": true, "CD": true}}, {"t": "tup", "c": ["q", "r"]}, {"u": true}]),
    ty!(unt::X, [null, {"x": true, "y": true}, {"v": true, "w": true}, {"fld_a": true, "b": true, "c": true}, {"fld_g": true, "x": true}, {"q": true}, {"AB": true, "CD": true}, ["q", "r"]]),
    ty!(unt_deny::X, [null, {"x": true, "y": true}, {"v": true, "w": true}, {"fld_a": true, "b": true, "c": true}, {"fld_g": true, "x": true}, {"q": true}, {"AB": true, "CD": true}, ["q", "r"]]),
    ty!(unt_all::X, [null, {"x": true, "y": true}, {"v": true, "w": true}, {"FLD_A": true, "B": true, "C": true}, {"FLD_G": true, "x": true}, {"q": true}, {"AB": true, "CD": true}, ["q", "r"]]),
];

/// (thorough)
#[rustfmt::skip]
pub const COMBO_MORE: &[Ty] = &[
    ty!(ext_ren::X, ["unit-one", {"new-p": {"x": true, "y": true}}, {"new-d": {"v": true, "w": true}}, {"stru-one": {"FLD_A": true, "B": true, "C": true}}, {"flat-one": {"FLD_G": true, "x": true}}, {"R": {"q": true}}, {"own": {"AB": true, "CD": true}}, {"tup": ["q", "r"]}, {"u": true}, [1, 2]]),
    ty!(int_ren::X, quirk |j| unit_in(j), [{"t": "unit-one"}, {"t": "new-p", "x": true, "y": true}, {"t": "new-d", "v": true, "w": true}, {"t": "stru-one", "FLD_A": true, "B": true, "C": true}, {"t": "flat-one", "FLD_G": true, "x": true}, {"t": "R", "q": true}, {"t": "own", "AB": true, "CD": true}, {"u": true}]),
    ty!(adj_ren::X, quirk |j| unit_of(j), [{"t": "unit-one"}, {"t": "new-p", "c": {"x": true, "y": true}}, {"t": "new-d", "c": {"v": true, "w": true}}, {"t": "stru-one", "c": {"FLD_A": true, "B": true, "C": true}}, {"t": "flat-one", "c": {"FLD_G": true, "x": true}}, {"t": "R", "c": {"q": true}}, {"t": "own", "c": {"AB": true, "CD": true}}, {"t": "tup", "c": ["q", "r"]}, {"u": true}]),
    ty!(unt_ren::X, [null, {"x": true, "y": true}, {"v": true, "w": true}, {"FLD_A": true, "B": true, "C": true}, {"FLD_G": true, "x": true}, {"q": true}, {"AB": true, "CD": true}, ["q", "r"]]),
];
