//! C28: attributes written as #[schemars(...)] take the place of those written as #[serde(...)], and mean what they
//! mean to serde. Every pair is one type whose schema is derived (`s`, with both kinds of attributes) and one whose
//! Serialize and Deserialize are derived (`o`, with the serde attributes that the first should be equal to).
use crate::der::{contract, serialized, Ty, EXACT, SCHEMA_LENIENT, SERDE_LENIENT};
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn int_schema(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({ "type": "integer", "minimum": 0, "maximum": 255 })
}
pub fn is_false(b: &bool) -> bool {
    !*b
}
pub fn yes() -> bool {
    true
}
pub fn nine() -> u8 {
    9
}
/// a boolean written as text
pub mod text {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(b: &bool, s: S) -> Result<S::Ok, S::Error> {
        if *b { "y" } else { "n" }.serialize(s)
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<bool, D::Error> {
        Ok(String::deserialize(d)? == "y")
    }
}
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
pub struct In {
    pub p: bool,
    pub q: Option<u8>,
}
impl From<In> for bool {
    fn from(i: In) -> bool {
        i.p
    }
}
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(deny_unknown_fields)]
pub struct Shut {
    pub p: bool,
}
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
pub enum Word {
    One,
    Two(u8),
}

macro_rules! pair {
    ($($m:ident { $s:item } = { $o:item })*) => { $(
        pub mod $m {
            pub mod s {
                use super::super::*;
                #[derive(JsonSchema)]
                $s
            }
            pub mod o {
                use super::super::*;
                #[derive(Serialize, Deserialize)]
                $o
            }
        }
    )* };
}
macro_rules! ov {
    ($m:ident, $q:expr, $a:expr, [$($j:tt),*]) => {
        Ty {
            name: stringify!($m),
            schema: |s| s.into_generator().into_root_schema_for::<$m::s::T>().to_value(),
            parts: |_| Value::Null,
            de: |v| serde_json::from_value::<$m::o::T>(v).ok().map(|t| serde_json::to_value(&t).map_err(|_| ())),
            tpl: || vec![$(json!($j)),*],
            deep: false,
            always: $a,
            quirk: $q,
        }
    };
}

// ------------------------------------------------------------------------------------------ containers
pair! {
    cont_rename_all {
        #[serde(rename_all = "UPPERCASE")]
        #[schemars(rename_all = "kebab-case")]
        pub struct T { a_b: bool, c_d: Option<u8> }
    } = {
        #[serde(rename_all = "kebab-case")]
        pub struct T { a_b: bool, c_d: Option<u8> }
    }
    cont_rename_all_first {
        #[schemars(rename_all = "camelCase")]
        #[serde(rename_all = "UPPERCASE", deny_unknown_fields)]
        pub struct T { a_b: bool, c_d: Option<u8> }
    } = {
        #[serde(rename_all = "camelCase", deny_unknown_fields)]
        pub struct T { a_b: bool, c_d: Option<u8> }
    }
    cont_rename_all_unset {
        #[serde(rename_all = "UPPERCASE", deny_unknown_fields)]
        #[schemars(!rename_all)]
        pub struct T { a_b: bool, c_d: Option<u8> }
    } = {
        #[serde(deny_unknown_fields)]
        pub struct T { a_b: bool, c_d: Option<u8> }
    }
    cont_rename_two {
        #[serde(rename_all(serialize = "UPPERCASE", deserialize = "PascalCase"))]
        #[schemars(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
        pub struct T { a_b: bool, c_d: Option<u8> }
    } = {
        #[serde(rename_all(serialize = "kebab-case", deserialize = "camelCase"))]
        pub struct T { a_b: bool, c_d: Option<u8> }
    }
    cont_deny {
        #[schemars(deny_unknown_fields)]
        pub struct T { a: bool, b: Option<In> }
    } = {
        #[serde(deny_unknown_fields)]
        pub struct T { a: bool, b: Option<In> }
    }
    cont_allow {
        #[serde(deny_unknown_fields)]
        #[serde(rename_all = "UPPERCASE")]
        #[schemars(!deny_unknown_fields)]
        pub struct T { a: bool, b: Option<In> }
    } = {
        #[serde(rename_all = "UPPERCASE")]
        pub struct T { a: bool, b: Option<In> }
    }
    cont_transparent {
        #[schemars(transparent)]
        pub struct T { a: In }
    } = {
        #[serde(transparent)]
        pub struct T { a: In }
    }
    cont_opaque {
        #[serde(transparent)]
        #[schemars(!transparent)]
        pub struct T { a: In }
    } = {
        pub struct T { a: In }
    }
    cont_tag_struct {
        #[serde(tag = "x")]
        #[schemars(tag = "t")]
        pub struct T { a: bool }
    } = {
        #[serde(tag = "t")]
        pub struct T { a: bool }
    }
    cont_no_tag_struct {
        #[serde(tag = "x")]
        #[schemars(!tag)]
        pub struct T { a: bool }
    } = {
        pub struct T { a: bool }
    }
    cont_tag {
        #[serde(tag = "x", rename_all = "UPPERCASE")]
        #[schemars(tag = "t")]
        pub enum T { A { p: bool }, B(In), C }
    } = {
        #[serde(tag = "t", rename_all = "UPPERCASE")]
        pub enum T { A { p: bool }, B(In), C }
    }
    cont_add_content {
        #[serde(tag = "t")]
        #[schemars(content = "c")]
        pub enum T { A { p: bool }, B(In), C }
    } = {
        #[serde(tag = "t", content = "c")]
        pub enum T { A { p: bool }, B(In), C }
    }
    cont_drop_content {
        #[serde(content = "c", tag = "t")]
        #[schemars(!content)]
        pub enum T { A { p: bool }, B(In), C }
    } = {
        #[serde(tag = "t")]
        pub enum T { A { p: bool }, B(In), C }
    }
    cont_content {
        #[serde(tag = "x", content = "y")]
        #[schemars(content = "c", tag = "t")]
        pub enum T { A { p: bool }, B(In, u8), C }
    } = {
        #[serde(tag = "t", content = "c")]
        pub enum T { A { p: bool }, B(In, u8), C }
    }
    cont_external {
        #[serde(tag = "x", content = "y")]
        #[schemars(!tag, !content)]
        pub enum T { A { p: bool }, B(In, u8), C }
    } = {
        pub enum T { A { p: bool }, B(In, u8), C }
    }
    cont_untagged {
        #[serde(tag = "x")]
        #[schemars(!tag, untagged)]
        pub enum T { A { p: bool }, B(u8, u8), C }
    } = {
        #[serde(untagged)]
        pub enum T { A { p: bool }, B(u8, u8), C }
    }
    cont_tagged {
        #[serde(untagged)]
        #[schemars(!untagged, tag = "t")]
        pub enum T { A { p: bool }, B(In), C }
    } = {
        #[serde(tag = "t")]
        pub enum T { A { p: bool }, B(In), C }
    }
    cont_fields {
        #[serde(rename_all_fields = "UPPERCASE", rename_all = "kebab-case")]
        #[schemars(rename_all_fields = "camelCase")]
        pub enum T { FirstOne { a_b: bool }, B(In) }
    } = {
        #[serde(rename_all_fields = "camelCase", rename_all = "kebab-case")]
        pub enum T { FirstOne { a_b: bool }, B(In) }
    }
    cont_fields_unset {
        #[serde(rename_all_fields = "UPPERCASE", rename_all = "kebab-case")]
        #[schemars(!rename_all_fields, !rename_all)]
        pub enum T { FirstOne { a_b: bool }, B(In) }
    } = {
        pub enum T { FirstOne { a_b: bool }, B(In) }
    }
    refs_external {
        #[schemars(_unstable_ref_variants)]
        pub enum T { A { p: bool }, B(In, u8), C, D(#[allow(dead_code)] Box<T>) }
    } = {
        pub enum T { A { p: bool }, B(In, u8), C, D(Box<T>) }
    }
    refs_internal {
        #[schemars(_unstable_ref_variants)]
        #[serde(tag = "t", rename_all = "camelCase")]
        pub enum T { A { p: bool }, B(In), TheC, #[serde(untagged)] D { z: u8 } }
    } = {
        #[serde(tag = "t", rename_all = "camelCase")]
        pub enum T { A { p: bool }, B(In), TheC, #[serde(untagged)] D { z: u8 } }
    }
    refs_adjacent {
        #[schemars(_unstable_ref_variants, rename_all_fields = "UPPERCASE")]
        #[serde(tag = "t", content = "c", deny_unknown_fields)]
        pub enum T { A { p: bool }, In(In), C }
    } = {
        #[serde(tag = "t", content = "c", deny_unknown_fields, rename_all_fields = "UPPERCASE")]
        pub enum T { A { p: bool }, In(In), C }
    }
    refs_untagged {
        #[schemars(_unstable_ref_variants)]
        #[serde(untagged)]
        pub enum T { A { p: bool }, T(u8, u8), C }
    } = {
        #[serde(untagged)]
        pub enum T { A { p: bool }, T(u8, u8), C }
    }
}
const CONTAINERS: &[Ty] = &[
    ov!(cont_rename_all, |_| EXACT, true, [{"a-b": true, "c-d": 1}]),
    ov!(cont_rename_all_first, |_| EXACT, true, [{"aB": true, "cD": 1}]),
    ov!(cont_rename_all_unset, |_| EXACT, true, [{"a_b": true, "c_d": 1}]),
    ov!(cont_rename_two, |_| EXACT, true, [{"aB": true, "cD": 1}]),
    ov!(cont_deny, |_| EXACT, true, [{"a": true, "b": {"p": true}}]),
    ov!(cont_allow, |_| EXACT, true, [{"A": true, "B": {"p": true}}]),
    ov!(cont_transparent, |_| EXACT, false, [{"p": true, "q": 1}, {"a": {"p": true}}]),
    ov!(cont_opaque, |_| EXACT, false, [{"a": {"p": true, "q": 1}}, {"p": true}]),
    ov!(cont_tag_struct, |_| EXACT, false, [{"t": "T", "a": true}, {"x": "T", "a": true}]),
    ov!(cont_no_tag_struct, |_| EXACT, false, [{"x": "T", "a": true}]),
    ov!(cont_tag, |_| EXACT, false, [{"t": "A", "p": true}, {"t": "B", "p": true}, {"t": "C"}, {"x": "A", "p": true}]),
    ov!(cont_add_content, unit_content, false, [{"t": "A", "c": {"p": true}}, {"t": "B", "c": {"p": true}}, {"t": "C"}]),
    ov!(cont_drop_content, |_| EXACT, false, [{"t": "A", "p": true}, {"t": "B", "p": true}, {"t": "A", "c": {"p": true}}]),
    ov!(cont_content, unit_content, false, [{"t": "A", "c": {"p": true}}, {"t": "B", "c": [{"p": true}, 1]}, {"t": "C"}]),
    ov!(cont_external, |_| EXACT, false, [{"A": {"p": true}}, {"B": [{"p": true}, 1]}, "C"]),
    ov!(cont_untagged, |_| EXACT, false, [{"p": true}, [1, 2], null]),
    ov!(cont_tagged, |_| EXACT, false, [{"t": "A", "p": true}, {"t": "B", "p": true}, {"t": "C"}]),
    ov!(cont_fields, |_| EXACT, false, [{"first-one": {"aB": true}}, {"b": {"p": true}}]),
    ov!(refs_external, |_| EXACT, false, [{"A": {"p": true}}, {"B": [{"p": true}, 1]}, "C", {"D": "C"}]),
    ov!(refs_internal, |_| EXACT, false, [{"t": "a", "p": true}, {"t": "b", "p": true}, {"t": "theC"}, {"z": 1}]),
    ov!(refs_adjacent, unit_content, false, [{"t": "A", "c": {"P": true}}, {"t": "In", "c": {"p": true}}, {"t": "C"}]),
    ov!(refs_untagged, |_| EXACT, false, [{"p": true}, [1, 2], null]),
    ov!(cont_fields_unset, |_| EXACT, false, [{"FirstOne": {"a_b": true}}, {"B": {"p": true}}]),
];

// ------------------------------------------------------------------------------------------ variants
pair! {
    var_rename {
        pub enum T {
            #[serde(rename = "x")]
            #[schemars(rename = "one")]
            A,
            #[serde(rename(serialize = "x", deserialize = "y"))]
            #[schemars(rename(serialize = "s", deserialize = "d"))]
            B(u8),
            #[schemars(!rename)]
            #[serde(rename = "z")]
            C,
        }
    } = {
        pub enum T {
            #[serde(rename = "one")]
            A,
            #[serde(rename(serialize = "s", deserialize = "d"))]
            B(u8),
            C,
        }
    }
    var_fields {
        #[serde(rename_all_fields = "UPPERCASE")]
        pub enum T {
            #[serde(rename_all = "UPPERCASE")]
            #[schemars(rename_all = "kebab-case")]
            A { a_b: bool },
            #[schemars(!rename_all)]
            #[serde(rename_all = "camelCase")]
            B { a_b: bool },
        }
    } = {
        #[serde(rename_all_fields = "UPPERCASE")]
        pub enum T {
            #[serde(rename_all = "kebab-case")]
            A { a_b: bool },
            B { a_b: bool },
        }
    }
    var_skip {
        pub enum T {
            #[schemars(skip)]
            A,
            #[serde(skip)]
            #[schemars(!skip)]
            B,
            #[serde(skip_serializing)]
            #[schemars(skip_deserializing, !skip_serializing)]
            C(bool),
            #[serde(skip_serializing)]
            #[schemars(skip)]
            D(bool),
            #[schemars(skip_serializing)]
            E(u8),
        }
    } = {
        pub enum T {
            #[serde(skip)]
            #[allow(dead_code)]
            A,
            B,
            #[serde(skip_deserializing)]
            C(bool),
            #[serde(skip)]
            #[allow(dead_code)]
            D(bool),
            #[serde(skip_serializing)]
            E(u8),
        }
    }
    var_untagged {
        #[serde(tag = "t")]
        pub enum T {
            A { p: bool },
            #[schemars(untagged)]
            B { q: u8 },
        }
    } = {
        #[serde(tag = "t")]
        pub enum T {
            A { p: bool },
            #[serde(untagged)]
            B { q: u8 },
        }
    }
    var_retagged {
        pub enum T {
            A { p: bool },
            #[serde(untagged)]
            #[schemars(!untagged, rename = "r")]
            B { q: u8 },
        }
    } = {
        pub enum T {
            A { p: bool },
            #[serde(rename = "r")]
            B { q: u8 },
        }
    }
    var_with {
        pub enum T {
            #[serde(with = "super::super::text")]
            #[schemars(with = "String")]
            A(bool),
            #[schemars(schema_with = "int_schema")]
            B(bool),
        }
    } = {
        pub enum T {
            A(String),
            B(u8),
        }
    }
}
const VARIANTS: &[Ty] = &[
    ov!(var_rename, |_| EXACT, false, ["one", {"d": 1}, "C"]),
    ov!(var_fields, |_| EXACT, false, [{"A": {"a-b": true}}, {"B": {"A_B": true}}]),
    ov!(var_skip, |_| EXACT, false, ["A", "B", {"C": true}, {"D": true}, {"E": 1}]),
    ov!(var_untagged, |_| EXACT, false, [{"t": "A", "p": true}, {"q": 1}]),
    ov!(var_retagged, |_| EXACT, false, [{"A": {"p": true}}, {"r": {"q": 1}}]),
    ov!(var_with, |_| EXACT, false, [{"A": "q"}, {"B": 1}]),
];

// ------------------------------------------------------------------------------------------ fields
pair! {
    fld_rename {
        #[serde(rename_all = "UPPERCASE")]
        pub struct T {
            #[serde(rename = "x")]
            #[schemars(rename = "one")]
            a: bool,
            #[schemars(!rename)]
            #[serde(rename = "y")]
            b: Option<u8>,
            #[schemars(rename(deserialize = "d", serialize = "s"))]
            #[serde(rename = "z")]
            c: bool,
        }
    } = {
        #[serde(rename_all = "UPPERCASE")]
        pub struct T {
            #[serde(rename = "one")]
            a: bool,
            b: Option<u8>,
            #[serde(rename(deserialize = "d", serialize = "s"))]
            c: bool,
        }
    }
    fld_default {
        pub struct T {
            #[schemars(default)]
            a: bool,
            #[serde(default)]
            #[schemars(!default)]
            b: bool,
            #[serde(default)]
            #[schemars(default = "nine")]
            c: u8,
        }
    } = {
        pub struct T {
            #[serde(default)]
            a: bool,
            b: bool,
            #[serde(default = "nine")]
            c: u8,
        }
    }
    fld_skip {
        #[serde(deny_unknown_fields)]
        pub struct T {
            #[schemars(skip)]
            a: bool,
            #[serde(skip)]
            #[schemars(!skip)]
            b: bool,
            #[serde(skip_serializing)]
            #[schemars(skip_deserializing, !skip_serializing)]
            c: bool,
            #[serde(skip_deserializing)]
            #[schemars(skip_serializing, !skip_deserializing)]
            d: bool,
            #[serde(skip_serializing)]
            #[schemars(skip)]
            e: bool,
        }
    } = {
        #[serde(deny_unknown_fields)]
        pub struct T {
            #[serde(skip)]
            #[allow(dead_code)]
            a: bool,
            b: bool,
            #[serde(skip_deserializing)]
            c: bool,
            #[serde(skip_serializing)]
            d: bool,
            #[serde(skip)]
            #[allow(dead_code)]
            e: bool,
        }
    }
    fld_skip_if {
        pub struct T {
            #[schemars(skip_serializing_if = "is_false")]
            a: bool,
            #[serde(skip_serializing_if = "is_false")]
            #[schemars(!skip_serializing_if)]
            b: bool,
            #[serde(skip_serializing_if = "yes_for")]
            #[schemars(skip_serializing_if = "is_false")]
            #[schemars(rename = "C")]
            c: bool,
        }
    } = {
        pub struct T {
            #[serde(skip_serializing_if = "is_false")]
            a: bool,
            b: bool,
            #[serde(skip_serializing_if = "is_false")]
            #[serde(rename = "C")]
            c: bool,
        }
    }
    fld_flatten {
        pub struct T {
            a: bool,
            #[schemars(flatten)]
            b: In,
        }
    } = {
        pub struct T {
            a: bool,
            #[serde(flatten)]
            b: In,
        }
    }
    fld_nested {
        pub struct T {
            a: bool,
            #[serde(flatten)]
            #[schemars(!flatten)]
            b: In,
        }
    } = {
        pub struct T {
            a: bool,
            b: In,
        }
    }
    fld_flatten_deny {
        #[schemars(deny_unknown_fields)]
        pub struct T {
            a: bool,
            #[schemars(flatten)]
            b: Shut,
        }
    } = {
        #[serde(deny_unknown_fields)]
        pub struct T {
            a: bool,
            #[serde(flatten)]
            b: Shut,
        }
    }
    fld_with {
        pub struct T {
            #[serde(with = "super::super::text")]
            #[schemars(with = "Option<String>")]
            a: bool,
            #[schemars(schema_with = "int_schema")]
            b: bool,
            #[schemars(with = "Word", rename = "C")]
            c: bool,
            #[schemars(with = "Vec<u8>", default = "nine")]
            d: u8,
        }
    } = {
        pub struct T {
            a: Option<String>,
            b: u8,
            #[serde(rename = "C")]
            c: Word,
            #[serde(default)]
            d: Vec<u8>,
        }
    }
    fld_with_flat {
        pub struct T {
            x: bool,
            #[serde(flatten)]
            #[schemars(with = "In")]
            a: u8,
        }
    } = {
        pub struct T {
            x: bool,
            #[serde(flatten)]
            a: In,
        }
    }
    fld_variants {
        #[serde(tag = "t")]
        pub enum T {
            A {
                #[serde(rename = "x")]
                #[schemars(rename = "y")]
                a: bool,
                #[serde(flatten)]
                #[schemars(!flatten)]
                b: Option<In>,
                #[schemars(skip)]
                c: bool,
            },
            B {
                #[schemars(with = "Word", default)]
                d: u8,
                #[serde(skip)]
                #[schemars(!skip, flatten)]
                e: In,
            },
        }
    } = {
        #[serde(tag = "t")]
        pub enum T {
            A {
                #[serde(rename = "y")]
                a: bool,
                b: Option<In>,
                #[serde(skip)]
                #[allow(dead_code)]
                c: bool,
            },
            B {
                #[serde(default = "two")]
                d: Word,
                #[serde(flatten)]
                e: In,
            },
        }
    }
    fld_tuple {
        pub struct T(
            #[schemars(with = "Word")] bool,
            #[serde(skip)]
            #[schemars(!skip)]
            u8,
            #[schemars(skip)] u8,
            #[serde(default)]
            #[schemars(!default)]
            String,
        );
    } = {
        pub struct T(
            Word,
            u8,
            #[serde(skip)]
            #[allow(dead_code)]
            u8,
            String,
        );
    }
}
/// the content of a unit variant is not described
fn unit_content(j: &Value) -> u8 {
    match j {
        Value::Object(m) if m.contains_key("c") && m.get("t").map_or(false, |t| t == "C" || t == "Dot") => SCHEMA_LENIENT | SERDE_LENIENT,
        Value::Object(m) if m.values().any(|v| unit_content(v) != EXACT) => SCHEMA_LENIENT | SERDE_LENIENT,
        _ => EXACT,
    }
}
pub fn two() -> Word {
    Word::Two(2)
}
pub fn yes_for(_: &bool) -> bool {
    true
}
const FIELDS: &[Ty] = &[
    ov!(fld_rename, |_| EXACT, true, [{"one": true, "B": 1, "d": true}]),
    ov!(fld_default, |_| EXACT, true, [{"a": true, "b": true, "c": 1}]),
    ov!(fld_skip, |_| EXACT, true, [{"b": true, "d": true}, {"b": true, "c": true, "d": true}, {"a": true, "b": true, "d": true}]),
    ov!(fld_skip_if, |_| EXACT, true, [{"a": true, "b": true, "C": true}, {"a": false, "b": false, "C": false}]),
    ov!(fld_flatten, |_| EXACT, true, [{"a": true, "p": true, "q": 1}]),
    ov!(fld_nested, |_| EXACT, true, [{"a": true, "b": {"p": true, "q": 1}}]),
    ov!(fld_flatten_deny, |_| EXACT, true, [{"a": true, "p": true}]),
    ov!(fld_with, |_| EXACT, false, [{"a": "q", "b": 1, "C": "One", "d": [1]}]),
    ov!(fld_with_flat, |_| EXACT, true, [{"x": true, "p": true, "q": 1}]),
    ov!(fld_variants, |_| EXACT, false, [{"t": "A", "y": true, "b": {"p": true}}, {"t": "B", "d": "One", "p": true}]),
    ov!(fld_tuple, |_| EXACT, false, [["One", 1, "q"]]),
];

// ------------------------------------------------------------------------------------------ other types in place
pub mod remote {
    pub struct Point {
        pub x: bool,
        pub y: Option<u8>,
    }
    pub enum Shape {
        Dot,
        Big(u8),
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(remote = "remote::Point", deny_unknown_fields)]
pub struct PointDef {
    #[serde(rename = "X")]
    pub x: bool,
    pub y: Option<u8>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(remote = "remote::Shape", tag = "t", content = "c")]
pub enum ShapeDef {
    Dot,
    #[serde(rename = "big")]
    Big(u8),
}
pair! {
    place_from {
        #[serde(from = "Word", into = "Word")]
        #[schemars(from = "In")]
        pub struct T { #[allow(dead_code)] a: u8 }
    } = {
        #[serde(from = "In", into = "Word")]
        #[derive(Clone)]
        pub struct T { pub a: u8 }
    }
    place_try {
        #[schemars(try_from = "In", into = "In")]
        pub struct T { #[allow(dead_code)] a: u8 }
    } = {
        pub struct T { p: bool, q: Option<u8> }
    }
    place_own {
        #[serde(from = "Word", into = "Word")]
        #[schemars(!from, !into)]
        pub struct T { p: bool, q: Option<u8> }
    } = {
        pub struct T { p: bool, q: Option<u8> }
    }
    place_with {
        #[schemars(with = "In", deny_unknown_fields)]
        #[allow(dead_code)]
        pub enum T { A }
    } = {
        pub struct T { p: bool, q: Option<u8> }
    }
    place_remote {
        #[allow(dead_code)]
        pub struct T {
            #[serde(with = "PointDef")]
            a: remote::Point,
            #[serde(with = "ShapeDef")]
            b: remote::Shape,
        }
    } = {
        pub struct T {
            #[serde(with = "PointDef")]
            a: remote::Point,
            #[serde(with = "ShapeDef")]
            b: remote::Shape,
        }
    }
    place_remote_flat {
        #[allow(dead_code)]
        pub struct T {
            #[serde(with = "ShapeDef", flatten)]
            b: remote::Shape,
            #[schemars(with = "PointDef")]
            #[serde(with = "text")]
            a: bool,
        }
    } = {
        pub struct T {
            #[serde(with = "ShapeDef", flatten)]
            b: remote::Shape,
            #[serde(with = "PointDef")]
            a: remote::Point,
        }
    }
    place_remote_variant {
        #[allow(dead_code)]
        pub enum T {
            #[serde(with = "PointDef")]
            A(remote::Point),
            B(#[serde(with = "ShapeDef")] remote::Shape),
        }
    } = {
        pub enum T {
            A(#[serde(with = "PointDef")] remote::Point),
            B(#[serde(with = "ShapeDef")] remote::Shape),
        }
    }
}
impl From<In> for place_from::o::T {
    fn from(i: In) -> Self {
        Self { a: i.p as u8 }
    }
}
impl From<place_from::o::T> for Word {
    fn from(t: place_from::o::T) -> Self {
        if t.a == 0 { Word::One } else { Word::Two(t.a) }
    }
}
const PLACES: &[Ty] = &[
    ov!(place_from, |_| EXACT, false, [{"p": true, "q": 1}]),
    ov!(place_try, |_| EXACT, false, [{"p": true, "q": 1}]),
    ov!(place_own, |_| EXACT, false, [{"p": true, "q": 1}]),
    ov!(place_with, |_| EXACT, false, [{"p": true, "q": 1}]),
    ov!(place_remote, unit_content, true, [{"a": {"X": true, "y": 1}, "b": {"t": "Dot"}}, {"a": {"X": true}, "b": {"t": "big", "c": 1}}]),
    ov!(place_remote_flat, unit_content, false, [{"a": {"X": true, "y": 1}, "t": "Dot"}, {"a": {"X": true}, "t": "big", "c": 1}]),
    ov!(place_remote_variant, unit_content, false, [{"A": {"X": true, "y": 1}}, {"B": {"t": "big", "c": 1}}]),
];

pub fn over_containers() {
    contract(CONTAINERS)
}
pub fn over_variants() {
    contract(VARIANTS)
}
pub fn over_fields() {
    contract(FIELDS)
}
pub fn over_places() {
    contract(PLACES)
}
pub fn over_ser() {
    match crate::sx::choose(4) {
        0 => serialized(CONTAINERS),
        1 => serialized(VARIANTS),
        2 => serialized(FIELDS),
        _ => serialized(PLACES),
    }
}
