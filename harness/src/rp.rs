//! C29: enums written as numbers (JsonSchema_repr) against serde_repr's Serialize and Deserialize.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{Dialect, V};
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, JsonSchema_repr};
use serde::de::value::{I64Deserializer, U64Deserializer};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use serde_repr::{Deserialize_repr, Serialize_repr};
use std::collections::BTreeMap;

const BASE: i16 = -300;
const fn twice(x: u32) -> u32 {
    x * 2
}
macro_rules! reprs {
    ($($(#[$a:meta])* $n:ident : $r:ident { $($(#[$va:meta])* $v:ident $(= $e:expr)?),* $(,)? })*) => {
        $(
            #[derive(Serialize_repr, Deserialize_repr, JsonSchema_repr, Clone, Copy, PartialEq, PartialOrd, Eq, Ord)]
            $(#[$a])*
            #[repr($r)]
            pub enum $n { $($(#[$va])* $v $(= $e)?),* }
            impl $n { pub const ALL: &'static [$n] = &[$($n::$v),*]; }
        )*
        pub const PLAIN: &[R] = &[$(r!($n, $n, |v| v)),*];
    };
}
pub struct R {
    name: &'static str,
    schema: fn(SchemaSettings) -> Value,
    de: fn(Value) -> Option<Value>,
    /// how many values the type has, and the document of one of them
    num: fn(Result<u64, i64>) -> bool,
    count: usize,
    ser: fn(usize) -> Value,
    /// the document in which `v` stands for the value
    wrap: fn(Value) -> Value,
}
macro_rules! r {
    ($t:ty, $e:ty, $w:expr) => {
        R {
            name: stringify!($t),
            schema: |s| s.into_generator().into_root_schema_for::<$t>().to_value(),
            de: |v| serde_json::from_value::<$t>(v).ok().map(|t| serde_json::to_value(&t).unwrap_or(Value::Null)),
            num: |n| match n {
                Ok(u) => <$e>::deserialize(U64Deserializer::<Quiet>::new(u)).is_ok(),
                Err(i) => <$e>::deserialize(I64Deserializer::<Quiet>::new(i)).is_ok(),
            },
            count: <$e>::ALL.len(),
            ser: |i| serde_json::to_value(<$e>::ALL[i]).unwrap_or(Value::Null),
            wrap: $w,
        }
    };
}
reprs! {
    Implicit: u8 { A, B, C }
    Jumps: u8 { Zero, One, Five = 5, Six, Three = 3, Four, Last = 255 }
    Negative: i8 { Min = -128, Next, M = -1, Z, Max = 127 }
    Single: u16 { Only = 65535 }
    Computed: i16 { A = BASE, B, C = BASE * -1, D = BASE / 7 }
    Function: u32 { A = twice(21), B = u32::MAX, C = 0 }
    Wide: i32 { A = i32::MIN, B = 1 << 20, C, D = i32::MAX }
    Large: u64 { A, B = 1 << 32, C = 1 << 63, D = u64::MAX - 1, E }
    Signed: i64 { A = i64::MIN, B, C = -4294967296, D = i64::MAX }
    Unsigned: usize { A = 1, B = 1 << 40 }
    Size: isize { A = -1, B = 1 << 40 }
    /// a description
    #[schemars(title = "Other", extend("x-a" = [1]), rename = "renamed", deny_unknown_fields)]
    #[serde(rename_all = "UPPERCASE")]
    Annotated: u8 {
        /// first
        #[serde(rename = "one")]
        A = 1,
        #[schemars(title = "x")]
        B = 3,
        /// third
        C = b'a'
    }
    Backwards: u8 { C = 2, B = 1, A = 0 }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Fields {
    a: Jumps,
    #[serde(default)]
    b: Option<Negative>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum Tagged {
    A(Large),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Generic<T> {
    x: T,
    y: Vec<T>,
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Flat {
    #[serde(flatten)]
    m: BTreeMap<String, Signed>,
}
pub const WITHIN: &[R] = &[
    r!(Fields, Jumps, |v| json!({ "a": v, "b": null })),
    r!(Fields, Negative, |v| json!({ "a": 1, "b": v })),
    r!(Tagged, Large, |v| json!({ "t": "A", "c": v })),
    r!(Generic<Computed>, Computed, |v| json!({ "x": v, "y": [-300] })),
    r!(Vec<Size>, Size, |v| json!([v])),
    r!(Option<Wide>, Wide, |v| v),
    r!(Flat, Signed, |v| json!({ "k": v })),
    r!(Box<[Annotated; 2]>, Annotated, |v| json!([3, v])),
];
#[derive(Debug)]
pub struct Quiet;
impl std::fmt::Display for Quiet {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Quiet {}
impl serde::de::Error for Quiet {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Quiet
    }
}
fn judge(r: &R, j: Value) {
    let d = (r.de)(j.clone());
    verdict(r, j, d.is_some())
}
fn verdict(r: &R, j: Value, d: bool) {
    let s = (r.schema)(SchemaSettings::default().for_deserialize());
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("{}\nschema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {d}", r.name);
    observe(&[ok as u8, d as u8]);
    check(!v.malformed.get() && !v.dangling.get(), "malformed keyword");
    check(ok || !d, "the schema of a number enum rejects one of its discriminants");
    check(d || !ok, "the schema of a number enum accepts a number that is not one of its discriminants");
    reach(if d { 1 } else { 2 });
}
/// every 64-bit integer
pub fn repr_ints() {
    let r = &PLAIN[choose(PLAIN.len() as u8)];
    let n = u64v();
    let (j, d) = if cflag() { (json!(n), (r.num)(Ok(n))) } else { (json!(n as i64), (r.num)(Err(n as i64))) };
    verdict(r, j, d);
}
const NEAR: &[i128] = &[0, 97, 255, 300, 65535, 1 << 20, 1 << 32, 1 << 40, 1 << 63, u64::MAX as i128, i64::MAX as i128, i32::MAX as i128, u32::MAX as i128, -42, -128, -300, -4294967296, i32::MIN as i128, i64::MIN as i128];
/// integers near those that matter
pub fn repr_within() {
    let r = &WITHIN[choose(WITHIN.len() as u8)];
    let n = NEAR[choose(NEAR.len() as u8)] + choose(9) as i128 - 4;
    let j = match (u64::try_from(n), i64::try_from(n)) {
        (Ok(u), _) => json!(u),
        (_, Ok(i)) => json!(i),
        _ => return,
    };
    judge(r, (r.wrap)(j));
}
/// what is not an integer
pub fn repr_other() {
    let r = if cflag() { &PLAIN[choose(PLAIN.len() as u8)] } else { &WITHIN[choose(WITHIN.len() as u8)] };
    let j = match choose(6) {
        0 => Value::Bool(flag()),
        1 => json!({ "A": 1 }),
        2 => json!([1]),
        3 => json!(0.5),
        4 => Value::String((byte(b'0', b'9') as char).to_string()),
        _ => json!(["A", "Zero", "one", "1"][choose(4)]),
    };
    judge(r, (r.wrap)(j));
}
/// every value is accepted in both directions, and accepted once
pub fn repr_values() {
    let r = if cflag() { &PLAIN[choose(PLAIN.len() as u8)] } else { &WITHIN[choose(WITHIN.len() as u8)] };
    let j = (r.wrap)((r.ser)(choose(r.count as u8)));
    let (mut st, d) = match choose(4) {
        0 => (SchemaSettings::draft07(), Dialect::D7),
        1 => (SchemaSettings::draft2019_09(), Dialect::D2019),
        2 => (SchemaSettings::openapi3(), Dialect::Oas3),
        _ => (SchemaSettings::draft2020_12(), Dialect::D2020),
    };
    if cflag() {
        st = st.for_serialize();
    }
    st.inline_subschemas = cflag();
    let s = (r.schema)(st);
    let v = V::new(&s, d);
    let ok = v.ok(&j);
    explain!("{}\nschema {s}\nserialized {j}: schema accepts it: {ok}", r.name);
    check(ok, "the schema of a number enum rejects what is written for one of its values");
    reach(1);
}
