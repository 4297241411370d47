//! The battery of derived types.
use crate::ty;
use crate::sx::*;
use crate::der::{Ty, EXACT, SCHEMA_LENIENT, SERDE_LENIENT};
use schemars::generate::SchemaGenerator;
use schemars::{json_schema, JsonSchema, Schema};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------ structs
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Plain {
    a: String,
    b: Option<bool>,
    c: Vec<u8>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
pub struct Renamed {
    first_name: bool,
    #[serde(rename = "type")]
    kind: String,
    r#fn: Option<u8>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "PascalCase"))]
pub struct TwoNames {
    first_name: bool,
    #[serde(rename(serialize = "out", deserialize = "in"))]
    x: bool,
    #[serde(rename(deserialize = "only_in"))]
    only_de: Option<bool>,
    #[serde(rename(serialize = "only_out"))]
    only_ser: Option<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema, Default)]
#[serde(default)]
pub struct AllDefault {
    a: bool,
    b: Option<String>,
    c: Vec<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct SomeDefault {
    a: bool,
    #[serde(default)]
    b: bool,
    #[serde(default = "dflt")]
    c: Option<bool>,
    #[serde(skip_serializing_if = "Option::is_none")]
    d: Option<bool>,
    #[serde(default, skip_serializing_if = "is_false")]
    e: bool,
}
fn dflt() -> Option<bool> {
    Some(true)
}
fn is_false(b: &bool) -> bool {
    !*b
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct Skips {
    a: bool,
    #[serde(skip)]
    s: u8,
    #[serde(skip_serializing)]
    only_de: bool,
    #[serde(skip_deserializing)]
    only_ser: bool,
    #[serde(skip_serializing, default)]
    only_de_default: Option<bool>,
    #[serde(skip_deserializing, default = "dflt", skip_serializing_if = "Option::is_none")]
    only_ser_if: Option<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct TupleOf(bool, Option<String>, #[serde(skip)] u8, Plain2);
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct TupleOne(#[serde(skip)] u8, bool);
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct TupleSkips(bool, #[serde(skip_deserializing)] u8, #[serde(skip_serializing)] String);
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
pub struct Plain2 {
    x: bool,
}
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(deny_unknown_fields)]
pub struct Closed {
    x: bool,
    y: Option<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Newtype(Option<bool>);
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct NewtypeRef(Closed);
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
pub struct Unit;
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(transparent)]
pub struct Transparent {
    inner: Closed,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(transparent)]
pub struct TransparentSkip {
    #[serde(skip)]
    _other: u8,
    inner: Option<bool>,
}
/// a described wrapper around an optional value
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(transparent)]
pub struct WrapsOption {
    inner: Option<bool>,
}
/// (without an own description for the renamed one)
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(transparent, rename = "another")]
pub struct NamedOption(Option<Plain2>);
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(from = "Option<bool>", into = "Option<bool>")]
pub struct FromOption(bool);
impl From<Option<bool>> for FromOption {
    fn from(b: Option<bool>) -> Self {
        FromOption(b == Some(true))
    }
}
impl From<FromOption> for Option<bool> {
    fn from(b: FromOption) -> Self {
        Some(b.0)
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Missing {
    w: WrapsOption,
    n: NamedOption,
    f: FromOption,
    k: std::rc::Weak<bool>,
    b: Box<WrapsOption>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Node {
    v: bool,
    next: Option<Box<Node>>,
    kids: Vec<Node>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Generic<T, U = bool> {
    t: T,
    u: Option<U>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct UsesGeneric {
    a: Generic<bool>,
    b: Generic<String, Unit>,
    c: Generic<Unit>,
}
/// converted on the way in and out
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(from = "bool", into = "String")]
pub struct FromInto(bool);
impl From<bool> for FromInto {
    fn from(b: bool) -> Self {
        FromInto(b)
    }
}
impl From<FromInto> for String {
    fn from(b: FromInto) -> Self {
        if b.0 { "yes" } else { "no" }.into()
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(try_from = "Plain2")]
pub struct TryFrom {
    out: String,
}
impl std::convert::TryFrom<Plain2> for TryFrom {
    type Error = String;
    fn try_from(_: Plain2) -> Result<Self, String> {
        Ok(TryFrom { out: "s".into() })
    }
}
#[derive(Serialize, Deserialize, JsonSchema, Clone)]
#[serde(into = "Plain2")]
pub struct OnlyInto {
    a: bool,
}
impl From<OnlyInto> for Plain2 {
    fn from(o: OnlyInto) -> Self {
        Plain2 { x: o.a }
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Converted {
    a: FromInto,
    b: Option<TryFrom>,
    c: OnlyInto,
}
mod as_text {
    use super::*;
    pub fn serialize<S: Serializer>(v: &bool, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(if *v { "t" } else { "f" })
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<bool, D::Error> {
        Ok(String::deserialize(d)? == "t")
    }
    pub fn schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({"type": "string"})
    }
}
fn yes() -> bool {
    true
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct With {
    #[serde(with = "as_text")]
    #[schemars(with = "String")]
    a: bool,
    #[serde(with = "as_text", default = "yes")]
    #[schemars(schema_with = "as_text::schema")]
    b: bool,
    #[schemars(with = "Option<bool>")]
    c: Option<bool>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Required {
    #[schemars(required)]
    #[serde(deserialize_with = "not_null")]
    a: Option<bool>,
    b: Option<bool>,
}
fn not_null<'de, D: Deserializer<'de>>(d: D) -> Result<Option<bool>, D::Error> {
    bool::deserialize(d).map(Some)
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Empty {}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct EmptyClosed {}

macro_rules! st {
    ($($x:tt)*) => { Ty { always: true, ..ty!($($x)*) } };
}
pub const STRUCTS: &[Ty] = &[
    st!(Plain, [{"a": "q", "b": true, "c": [1, 2]}]),
    st!(deep Renamed, [{"firstName": true, "type": "q", "fn": 1}]),
    st!(TwoNames, [{"FirstName": true, "in": true, "only_in": true, "OnlySer": false, "FIRST-NAME": true, "out": true, "only_out": true, "ONLY-DE": false}, {"FirstName": true, "in": true}]),
    st!(AllDefault, [{"a": true, "b": "q", "c": [true]}]),
    st!(SomeDefault, [{"a": true, "b": true, "c": false, "d": true, "e": true}, {"a": true}]),
    ty!(Skips, [{"a": true, "only_de": true, "only_de_default": true}, {"a": true, "only_de": true, "s": 1, "only_ser": true, "only_ser_if": true}]),
    st!(TupleOf, [[true, "q", {"x": true}]]),
    st!(TupleOne, [[true], true]),
    st!(TupleSkips, [[true, "q"], [true, 1]]),
    st!(Newtype, [true, [true]]),
    st!(NewtypeRef, [{"x": true, "y": true}]),
    st!(Unit, [null]),
    st!(Transparent, [{"x": true, "y": true}, {"inner": {"x": true}}]),
    st!(TransparentSkip, [true]),
    st!(Missing, [{"w": true, "n": {"x": true}, "f": true, "k": true, "b": null}, {}]),
    st!(Node, [{"v": true, "next": {"v": true, "next": null, "kids": []}, "kids": [{"v": true, "kids": []}]}]),
    st!(UsesGeneric, [{"a": {"t": true, "u": true}, "b": {"t": "q", "u": null}, "c": {"t": null, "u": true}}]),
    st!(Converted, [{"a": true, "b": {"x": true}, "c": {"a": true}}, {"a": "yes", "b": {"out": "s"}, "c": {"x": true}}]),
    st!(With, [{"a": "t", "b": "f", "c": true}]),
    st!(Required, [{"a": true, "b": true}]),
    st!(deep Empty, [{}]),
    st!(deep EmptyClosed, [{}]),
];

// ------------------------------------------------------------------------------------------ externally tagged
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum Units {
    One,
    #[serde(rename = "second")]
    Two,
    #[serde(skip)]
    Three,
    /// documented
    Four,
    #[schemars(title = "titled")]
    Five,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(rename_all = "snake_case")]
pub enum UnitDirections {
    BothWays,
    #[serde(skip_serializing)]
    OnlyIn,
    #[serde(skip_deserializing)]
    OnlyOut,
    #[serde(rename(serialize = "s", deserialize = "d"))]
    Differs,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum Ext {
    Unit,
    New(bool),
    Tuple(bool, String),
    Struct { a: bool, b: Option<bool> },
    NewUnit(Unit),
    NewClosed(Closed),
    EmptyStruct {},
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields, rename_all = "kebab-case", rename_all_fields = "UPPERCASE")]
pub enum ExtClosed {
    UnitOne,
    StructOne {
        field_a: bool,
        #[serde(default)]
        b: bool,
        #[serde(rename = "cc")]
        c: Option<bool>,
    },
    #[serde(rename_all = "PascalCase")]
    OtherOne { field_b: bool },
    TupleOne(bool, bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtSkips {
    #[serde(skip)]
    Never(bool),
    #[serde(skip_serializing)]
    In(bool),
    #[serde(skip_deserializing)]
    Out(bool),
    Fields {
        #[serde(skip)]
        n: u8,
        #[serde(skip_serializing_if = "Option::is_none")]
        m: Option<bool>,
    },
    New(#[serde(skip)] u8),
    Tup(#[serde(skip)] u8, bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtUntagged {
    Unit,
    Tagged(bool),
    #[serde(untagged)]
    Text(String),
    #[serde(untagged)]
    Rec { x: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtOther {
    A,
    #[serde(other)]
    Rest,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtWith {
    #[serde(with = "as_text")]
    #[schemars(with = "String")]
    A(bool),
    B(#[serde(with = "as_text")] #[schemars(schema_with = "as_text::schema")] bool),
    #[schemars(schema_with = "as_text::schema")]
    #[serde(with = "as_text")]
    C(bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtGeneric<T> {
    Some(T),
    Many(Vec<T>),
    Never,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct HoldsEnums {
    e: ExtGeneric<Units>,
    f: Option<ExtGeneric<bool>>,
}
/// several variant names at once: serde takes the first, oneOf wants exactly one
fn several(j: &Value, names: &[&str]) -> u8 {
    let n = names.iter().filter(|n| j.get(**n).is_some()).count();
    let odd = names.iter().any(|n| j.get(*n).is_some_and(|v| v.as_object().is_some_and(|o| o.is_empty())));
    if n > 1 {
        SCHEMA_LENIENT | SERDE_LENIENT
    } else if odd {
        SERDE_LENIENT
    } else {
        EXACT
    }
}
/// content next to the tag of a unit variant is not described by the schema
fn unit_content(j: &Value, t: &str, c: &str, unit: &[&str]) -> u8 {
    if j.get(t).and_then(Value::as_str).is_some_and(|s| unit.contains(&s)) && j.get(c).is_some() {
        SCHEMA_LENIENT | SERDE_LENIENT
    } else {
        EXACT
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtHalf {
    I(#[serde(skip_serializing)] bool),
    O(#[serde(skip_deserializing)] bool),
    T(#[serde(skip_deserializing)] u8, bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum IntHalf {
    I(#[serde(skip_serializing)] Plain2),
    O(#[serde(skip_deserializing)] PlainD),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum AdjHalf {
    I(#[serde(skip_serializing)] bool),
    O(#[serde(skip_deserializing)] bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum UntHalf {
    I(#[serde(skip_serializing)] bool),
    O(#[serde(skip_deserializing)] String),
}
#[derive(Serialize, Deserialize, JsonSchema, Clone, Default)]
pub struct PlainD {
    x: bool,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum ExtUntClosed {
    A { a: bool },
    #[serde(untagged)]
    Rest { r: bool },
}
pub const ENUMS_EXTERNAL: &[Ty] = &[
    ty!(ExtHalf, [{"I": true}, {"O": true}, "O", "I", {"T": [true]}]),
    ty!(ExtUntClosed, [{"A": {"a": true}}, {"r": true}]),
    ty!(deep Units, ["One", "second", "Three", "Four", "Five"]),
    ty!(deep UnitDirections, ["both_ways", "only_in", "only_out", "s", "d"]),
    ty!(Ext, ["Unit", {"New": true}, {"Tuple": [true, "q"]}, {"Struct": {"a": true, "b": true}}, {"NewUnit": null}, {"NewClosed": {"x": true}}, {"EmptyStruct": {}}]),
    ty!(ExtClosed, ["unit-one", {"struct-one": {"FIELD_A": true, "B": true, "cc": true}}, {"other-one": {"FieldB": true}}, {"tuple-one": [true, true]}]),
    ty!(ExtSkips, [{"Never": true}, {"In": true}, {"Out": true}, {"Fields": {"m": true}}, "New", {"Tup": [true]}]),
    ty!(ExtUntagged, ["Unit", {"Tagged": true}, "q", {"x": true}]),
    ty!(lenient ExtOther, ["A", "Rest"]),
    ty!(ExtWith, [{"A": "t"}, {"B": "t"}, {"C": "t"}]),
    ty!(HoldsEnums, [{"e": {"Some": "One"}, "f": {"Many": [true]}}, {"e": "Never", "f": "Never"}]),
];

// ------------------------------------------------------------------------------------------ internally tagged
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum Int {
    Unit,
    Struct { a: bool, b: Option<bool> },
    New(Plain2),
    NewClosed(Closed),
    NewUnit(Unit),
    NewMap(BTreeMap<String, bool>),
    Nested(IntInner),
    EmptyStruct {},
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "u")]
pub enum IntInner {
    A { k: bool },
    B,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", deny_unknown_fields, rename_all = "lowercase")]
pub enum IntClosed {
    Unit,
    Struct {
        a: bool,
        #[serde(default)]
        b: bool,
    },
    #[serde(rename = "N")]
    New(Plain2),
    NewClosed(Closed),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum IntSkips {
    #[serde(skip_serializing)]
    In { a: bool },
    #[serde(skip_deserializing)]
    Out { a: bool },
    Both {
        #[serde(skip_deserializing)]
        o: bool,
        #[serde(skip_serializing)]
        i: bool,
    },
    #[serde(rename(serialize = "ser", deserialize = "de"))]
    Differs,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum IntUntagged {
    A { a: bool },
    B,
    #[serde(untagged)]
    Rest { r: bool },
    #[serde(untagged)]
    Text(String),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", deny_unknown_fields)]
pub enum IntUntClosed {
    A { a: bool },
    #[serde(untagged)]
    Rest { r: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum IntFlat {
    A {
        a: bool,
        #[serde(flatten)]
        c: Plain2,
    },
    N(FlatTwo),
    M(FlatMap),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "kind")]
pub struct IntStruct {
    a: bool,
}
pub const ENUMS_INTERNAL: &[Ty] = &[
    // (an unit struct inside, given other keys: serde wants none, the schema allows them)
    ty!(Int, quirk |j| if j["t"] == "NewUnit" { SCHEMA_LENIENT } else { EXACT }, [{"t": "Unit"}, {"t": "Struct", "a": true, "b": true}, {"t": "New", "x": true}, {"t": "NewClosed", "x": true}, {"t": "NewUnit"}, {"t": "NewMap", "q": true}, {"t": "Nested", "u": "A", "k": true}, {"t": "EmptyStruct"}]),
    // (serde does not enforce deny_unknown_fields on internally tagged unit variants, the schema does)
    ty!(IntClosed, quirk |j| if j["t"] == "unit" { SERDE_LENIENT } else { EXACT }, [{"t": "unit"}, {"t": "struct", "a": true, "b": true}, {"t": "N", "x": true}, {"t": "newclosed", "x": true}]),
    ty!(IntSkips, [{"t": "In", "a": true}, {"t": "Out", "a": true}, {"t": "Both", "i": true, "o": true}, {"t": "de"}, {"t": "ser"}]),
    ty!(IntUntagged, [{"t": "A", "a": true}, {"t": "B"}, {"r": true}, "q"]),
    ty!(IntHalf, [{"t": "I", "x": true}, {"t": "O", "x": true}, {"t": "O"}]),
    ty!(IntUntClosed, [{"t": "A", "a": true}, {"r": true}]),
    ty!(IntFlat, [{"t": "A", "a": true, "x": true}, {"t": "N", "own": true, "x": true, "y": true, "z": "q"}, {"t": "M", "own": true, "q": 1}]),
];

// ------------------------------------------------------------------------------------------ adjacently tagged
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum Adj {
    Unit,
    New(bool),
    NewOpt(Option<bool>),
    NewUnit(Unit),
    Tuple(bool, String),
    Struct { a: bool, b: Option<bool> },
    NewClosed(Closed),
    Fn(#[serde(skip)] u8),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c", deny_unknown_fields, rename_all_fields = "camelCase")]
pub enum AdjClosed {
    Unit,
    Struct { field_one: bool },
    New(Plain2),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum AdjSkips {
    #[serde(skip_serializing)]
    In(bool),
    #[serde(skip_deserializing)]
    Out(bool),
    #[serde(rename(serialize = "ser", deserialize = "de"))]
    Differs { a: bool },
    #[serde(untagged)]
    Rest { r: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c", deny_unknown_fields)]
pub enum AdjUntClosed {
    A { a: bool },
    #[serde(untagged)]
    Rest { r: bool },
}
pub const ENUMS_ADJACENT: &[Ty] = &[
    ty!(AdjHalf, [{"t": "I", "c": true}, {"t": "O", "c": true}, {"t": "O"}]),
    ty!(AdjUntClosed, [{"t": "A", "c": {"a": true}}, {"r": true}]),
    // (serde: optional content may be missing, {} is taken for a unit, a skipped field reads null but is not written)
    ty!(Adj, quirk |j| match j["t"].as_str() {
        Some("NewOpt") if j.get("c").is_none() => SERDE_LENIENT,
        Some("NewUnit") if j["c"].is_object() => SERDE_LENIENT,
        Some("Fn") => SERDE_LENIENT | SCHEMA_LENIENT,
        _ => unit_content(j, "t", "c", &["Unit"]),
    }, [{"t": "Unit"}, {"t": "New", "c": true}, {"t": "NewOpt", "c": true}, {"t": "NewUnit", "c": null}, {"t": "Tuple", "c": [true, "q"]}, {"t": "Struct", "c": {"a": true, "b": true}}, {"t": "NewClosed", "c": {"x": true}}, {"t": "Fn"}]),
    ty!(AdjClosed, quirk |j| if j["t"] == "Unit" && j["c"].is_null() { SERDE_LENIENT } else { EXACT }, [{"t": "Unit"}, {"t": "Struct", "c": {"fieldOne": true}}, {"t": "New", "c": {"x": true}}]),
    ty!(AdjSkips, [{"t": "In", "c": true}, {"t": "Out", "c": true}, {"t": "de", "c": {"a": true}}, {"t": "ser", "c": {"a": true}}, {"r": true}]),
];

// ------------------------------------------------------------------------------------------ untagged
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum Unt {
    Unit,
    Bool(bool),
    Struct { a: bool, b: Option<bool> },
    New(Closed),
    Text(String),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum UntTuple {
    Tuple(bool, String),
    Three(bool, bool, Option<bool>),
    List(Vec<String>),
    Unit,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged, deny_unknown_fields)]
pub enum UntClosed {
    A { a: bool },
    B { b: bool, #[serde(default)] c: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum UntSkips {
    #[serde(skip_deserializing)]
    Out(String),
    #[serde(skip_serializing)]
    In { a: bool },
    #[serde(skip)]
    Never(u8),
    Both(bool),
}
pub const ENUMS_UNTAGGED: &[Ty] = &[
    ty!(Unt, [null, true, {"a": true, "b": true}, {"x": true, "y": true}, "q"]),
    ty!(UntTuple, [[true, "q"], [true, true, null], ["q"], null]),
    ty!(deep UntClosed, [{"a": true}, {"b": true, "c": true}]),
    ty!(UntHalf, [true, null, "q"]),
    ty!(deep UntSkips, ["q", {"a": true}, true]),
];

// ------------------------------------------------------------------------------------------ flatten
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Inner2 {
    y: bool,
    z: Option<String>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatTwo {
    own: bool,
    #[serde(flatten)]
    a: Plain2,
    #[serde(flatten)]
    b: Inner2,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatMap {
    own: bool,
    #[serde(flatten)]
    rest: BTreeMap<String, u8>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatValues {
    own: bool,
    #[serde(flatten)]
    rest: BTreeMap<String, serde_json::Value>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatOption {
    own: bool,
    #[serde(flatten)]
    a: Option<Plain2>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "k")]
pub enum TagK {
    A { a: bool },
    B { b: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum ExtAB {
    A(bool),
    B { b: bool },
    U,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum OnlyUnits {
    U,
    V,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "tt", content = "cc")]
pub enum AdjAB {
    A(bool),
    U,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum UntAB {
    A { p: bool },
    B { q: bool },
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatTag {
    own: bool,
    #[serde(flatten)]
    e: TagK,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatExt {
    own: bool,
    #[serde(flatten)]
    e: ExtAB,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatUnits {
    own: bool,
    #[serde(flatten)]
    e: OnlyUnits,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatMany {
    own: bool,
    #[serde(flatten)]
    e: TagK,
    #[serde(flatten)]
    f: AdjAB,
    #[serde(flatten)]
    g: UntAB,
    #[serde(flatten)]
    h: Plain2,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatOptEnums {
    own: bool,
    #[serde(flatten)]
    e: Option<TagK>,
    #[serde(flatten)]
    g: Option<UntAB>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatNew1(Plain2);
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatNew2(Inner2);
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatNewtypes {
    #[serde(flatten)]
    a: FlatNew1,
    #[serde(flatten)]
    b: FlatNew2,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatDeep {
    own2: bool,
    #[serde(flatten)]
    inner: FlatTag,
    #[serde(flatten)]
    o: Box<Inner2>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatClosedInner {
    own: bool,
    #[serde(flatten)]
    m: BTreeMap<String, bool>,
    #[serde(flatten)]
    c: Plain2,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct FlatSkips {
    own: bool,
    #[serde(flatten, skip_serializing)]
    a: Plain2,
    #[serde(flatten, skip_deserializing)]
    b: Option<Inner2>,
}
pub const FLATTENED: &[Ty] = &[
    ty!(FlatTwo, [{"own": true, "x": true, "y": true, "z": "q"}]),
    ty!(FlatMap, [{"own": true, "q": 1}]),
    ty!(FlatValues, [{"own": true, "q": 1}]),
    ty!(lenient FlatOption, [{"own": true, "x": true}]),
    ty!(FlatTag, [{"own": true, "k": "A", "a": true}, {"own": true, "k": "B", "b": true}]),
    ty!(FlatExt, quirk |j| several(j, &["A", "B", "U"]), [{"own": true, "A": true}, {"own": true, "B": {"b": true}}, {"own": true, "U": null}]),
    ty!(FlatUnits, quirk |j| several(j, &["U", "V"]), [{"own": true, "U": null}, {"own": true, "V": null}]),
    ty!(FlatMany, quirk |j| unit_content(j, "tt", "cc", &["U"]), [{"own": true, "k": "A", "a": true, "tt": "A", "cc": true, "p": true, "x": true}, {"own": true, "k": "B", "b": true, "tt": "U", "q": true, "x": true}]),
    ty!(lenient FlatOptEnums, [{"own": true, "k": "A", "a": true, "p": true}]),
    ty!(FlatNewtypes, [{"x": true, "y": true, "z": "q"}]),
    ty!(FlatDeep, [{"own2": true, "own": true, "k": "A", "a": true, "y": true, "z": "q"}]),
    ty!(FlatSkips, [{"own": true, "x": true}]),
];

// ------------------------------------------------------------------------------------------ combinations
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub enum ExtDeny {
    S { s: bool },
    N(bool),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "u", deny_unknown_fields)]
pub enum TagDeny {
    A { a: bool },
    B { b: Option<bool> },
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct FlatDeny {
    own: bool,
    #[serde(flatten)]
    a: Plain2,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
pub struct FlatDenyExt {
    own: bool,
    #[serde(flatten)]
    e: ExtAB,
    #[serde(flatten)]
    o: Option<ExtDeny>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum IntDeny {
    U(UntClosed),
    E(ExtDeny),
    K(TagDeny),
    F(FlatDeny),
    G(FlatDenyExt),
    C(Closed),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Uses {
    i: IntDeny,
    #[serde(flatten)]
    f: Closed,
    #[serde(flatten)]
    e: ExtDeny,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "kind")]
pub struct TagStruct {
    a: bool,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "kind", deny_unknown_fields)]
pub struct TagStructDeny {
    a: bool,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum UntOfEnums {
    I(TagDeny),
    E(ExtDeny),
    S(FlatDeny),
    M(BTreeMap<String, u8>),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c", deny_unknown_fields)]
pub enum AdjOfEnums {
    I(TagDeny),
    E(ExtDeny),
    O(Option<UntClosed>),
    L(Vec<TagDeny>),
}
pub const COMBINED: &[Ty] = &[
    ty!(FlatDeny, [{"own": true, "x": true}]),
    ty!(FlatDenyExt, quirk |j| several(j, &["A", "B", "U", "S", "N"]), [{"own": true, "A": true, "S": {"s": true}}, {"own": true, "U": null, "N": true}, {"own": true, "B": {"b": true}}]),
    // (inner restrictions on unknown fields cannot be expressed next to the tag)
    ty!(IntDeny, quirk |j| match j["t"].as_str() { Some("C") | Some("F") => EXACT, Some("G") => SCHEMA_LENIENT | SERDE_LENIENT, _ => SCHEMA_LENIENT }, [{"t": "U", "a": true}, {"t": "E", "S": {"s": true}}, {"t": "K", "u": "A", "a": true}, {"t": "F", "own": true, "x": true}, {"t": "G", "own": true, "A": true, "N": true}, {"t": "C", "x": true}]),
    ty!(Uses, quirk |j| several(j, &["S", "N"]), [{"i": {"t": "C", "x": true}, "x": true, "N": true}]),
    st!(TagStruct, [{"a": true}, {"kind": "TagStruct", "a": true}]),
    st!(TagStructDeny, [{"a": true}, {"kind": "TagStructDeny", "a": true}]),
    ty!(UntOfEnums, [{"u": "A", "a": true}, {"S": {"s": true}}, {"own": true, "x": true}, {"q": 1}]),
    ty!(AdjOfEnums, quirk |j| if j["t"] == "O" && j.get("c").is_none() { SERDE_LENIENT } else { EXACT }, [{"t": "I", "c": {"u": "A", "a": true}}, {"t": "E", "c": {"N": true}}, {"t": "O", "c": {"a": true}}, {"t": "L", "c": [{"u": "B"}]}]),
];

// ------------------------------------------------------------------------------------------ containers of derived types
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    A,
    #[serde(rename = "b")]
    B,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Maps {
    a: BTreeMap<Key, bool>,
    b: Option<BTreeMap<String, Closed>>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Tuples {
    a: (bool, String),
    b: [Closed; 2],
    c: Vec<(Units,)>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Pointers<'a> {
    a: Box<Closed>,
    b: std::borrow::Cow<'a, str>,
    c: Option<Option<bool>>,
}
pub const CONTAINERS: &[Ty] = &[
    ty!(Maps, [{"a": {"A": true, "b": true}, "b": {"q": {"x": true}}}]),
    ty!(Tuples, [{"a": [true, "q"], "b": [{"x": true}, {"x": true}], "c": [["One"]]}]),
    ty!(Pointers, [{"a": {"x": true}, "b": "q", "c": true}]),
];

// ------------------------------------------------------------------------------------------ defaults
#[derive(Serialize, Deserialize, JsonSchema, Clone, PartialEq)]
pub struct Point {
    x: u8,
    y: Option<bool>,
}
impl Default for Point {
    fn default() -> Self {
        Point { x: 7, y: None }
    }
}
fn far() -> Point {
    Point { x: 9, y: Some(true) }
}
fn is_seven(p: &Point) -> bool {
    p.x == 7
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Defaults {
    #[serde(default)]
    a: Point,
    #[serde(default = "far")]
    b: Point,
    #[serde(default, skip_serializing_if = "is_seven")]
    c: Point,
    #[serde(default = "far", skip_serializing_if = "is_seven")]
    d: Point,
    #[serde(default = "yes", with = "as_text")]
    #[schemars(with = "String")]
    e: bool,
    f: u8,
    #[serde(default, rename = "gg")]
    g: Option<String>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default = "some_defaults", rename_all = "UPPERCASE")]
pub struct ContainerDefault {
    a: Point,
    #[serde(default)]
    b: Point,
    #[serde(default = "far")]
    c: Point,
    d: String,
    #[serde(with = "as_text")]
    #[schemars(with = "String")]
    e: bool,
}
fn some_defaults() -> ContainerDefault {
    ContainerDefault { a: Point { x: 1, y: None }, b: far(), c: Point { x: 2, y: None }, d: "dd".into(), e: true }
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub struct VariantDefault {
    #[serde(default = "yes")]
    a: bool,
    #[serde(default)]
    b: (u8, bool),
}
pub const DEFAULTS: &[Ty] = &[
    st!(Defaults, [{"a": {"x": 1}, "b": {"x": 1}, "c": {"x": 1}, "d": {"x": 1}, "e": "t", "f": 1, "gg": "q"}]),
    st!(ContainerDefault, [{"A": {"x": 1}, "B": {"x": 1}, "C": {"x": 1}, "D": "q", "E": "t"}]),
    st!(VariantDefault, [{"a": true, "b": [1, true]}]),
    st!(AllDefault, [{"a": true, "b": "q", "c": [true]}]),
    st!(SomeDefault, [{"a": true, "b": true, "c": false, "d": true, "e": true}]),
];

// ------------------------------------------------------------------------------------------ values only Rust code can make
fn out<T: Serialize + JsonSchema>(name: &'static str, v: T) -> (&'static str, Value, Option<Value>) {
    let s = schemars::generate::SchemaSettings::default().for_serialize().into_generator().into_root_schema_for::<T>();
    (name, s.to_value(), serde_json::to_value(&v).ok())
}
fn ob() -> Option<bool> {
    if cflag() {
        Some(flag())
    } else {
        None
    }
}
pub const OUT_VALUES: u8 = 14;
pub fn out_value(n: usize) -> (&'static str, Value, Option<Value>) {
    match n {
        0 => out("UnitDirections", if cflag() { UnitDirections::OnlyOut } else { UnitDirections::OnlyIn }),
        1 => out("ExtSkips", ExtSkips::Out(flag())),
        2 => out("IntSkips", IntSkips::Out { a: flag() }),
        3 => out("AdjSkips", AdjSkips::Out(flag())),
        4 => out("UntSkips", UntSkips::Out(ascii(1))),
        5 => out("Skips", Skips { a: flag(), s: 1, only_de: flag(), only_ser: flag(), only_de_default: ob(), only_ser_if: ob() }),
        6 => out("FlatSkips", FlatSkips { own: flag(), a: Plain2 { x: flag() }, b: Some(Inner2 { y: flag(), z: cflag().then(|| ascii(1)) }) }),
        7 => out("TupleSkips", TupleSkips(flag(), byte(0, 9), ascii(1))),
        8 => out("TupleOf", TupleOf(flag(), cflag().then(|| ascii(1)), 3, Plain2 { x: flag() })),
        9 => out("IntSkips", IntSkips::Both { o: flag(), i: flag() }),
        10 => out("TryFrom", TryFrom { out: ascii(1) }),
        11 => out("Adj", Adj::Fn(byte(0, 9))),
        12 => out("SomeDefault", SomeDefault { a: flag(), b: flag(), c: ob(), d: ob(), e: cflag() }),
        _ => out("TwoNames", TwoNames { first_name: flag(), x: flag(), only_de: ob(), only_ser: ob() }),
    }
}
