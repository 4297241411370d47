//! C22: the JsonSchema implementations for third-party crates against their serde implementations.
use crate::der::{contract, serialized, Ty, EXACT, REPEATED, SCHEMA_LENIENT, SERDE_LENIENT};
use crate::explain;
use crate::sx::*;
use crate::ty;
use crate::val::{Dialect, V};
use schemars::generate::SchemaSettings;
use schemars::JsonSchema;
use serde::de::value::{BorrowedStrDeserializer, I64Deserializer, U64Deserializer};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct P {
    x: bool,
}
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub enum Key {
    Red,
    #[serde(rename = "dark blue")]
    Blue,
}
#[derive(Debug)]
pub struct Quiet;
impl std::fmt::Display for Quiet {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Quiet {}
impl serde::de::Error for Quiet {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Quiet
    }
}
fn set(v: &Value) -> u8 {
    match v {
        Value::Array(a) if (0..a.len()).any(|i| (0..i).any(|j| a[i] == a[j])) => REPEATED,
        _ => EXACT,
    }
}
/// only some strings can be parsed
fn text(v: &Value) -> u8 {
    if v.is_string() {
        SCHEMA_LENIENT
    } else {
        EXACT
    }
}
/// the formats of chrono's weekdays: any case, long or short
fn lax(v: &Value) -> u8 {
    if v.is_string() {
        SERDE_LENIENT
    } else {
        EXACT
    }
}
#[rustfmt::skip]
pub const TP: &[Ty] = &[
    ty!(either::Either<bool, P>, [{"Left": true}, {"Right": {"x": true}}]),
    ty!(arrayvec::ArrayVec<bool, 2>, [[true, false], []]),
    ty!(arrayvec::ArrayVec<P, 1>, [[{"x": true}], []]),
    ty!(arrayvec::ArrayString<8>, ["q"]),
    ty!(bytes::Bytes, [[1, 2], "q"]),
    ty!(bytes::BytesMut, [[1, 2], "q"]),
    ty!(chrono::TimeDelta, [[1, 2]]),
    ty!(chrono::Weekday, quirk lax, ["Mon", "Sun"]),
    ty!(indexmap::IndexMap<Key, bool, std::collections::hash_map::RandomState>, [{"Red": true, "dark blue": false}, {}]),
    ty!(indexmap::IndexMap<String, P, std::collections::hash_map::RandomState>, [{"q": {"x": true}}]),
    ty!(indexmap::IndexSet<bool, std::collections::hash_map::RandomState>, quirk set, [[true, false], []]),
    ty!(smallvec::SmallVec<[P; 1]>, [[{"x": true}, {"x": false}], []]),
    ty!(smol_str02::SmolStr, ["q"]),
    ty!(smol_str03::SmolStr, ["q"]),
    ty!(uuid::Uuid, quirk text, ["67e55044-10b1-426f-9247-bb680e5fe0c8"]),
    ty!(chrono::NaiveDate, quirk text, ["2020-01-02"]),
    ty!(chrono::NaiveTime, quirk text, ["01:02:03"]),
    ty!(chrono::NaiveDateTime, quirk text, ["2020-01-02T01:02:03"]),
    ty!(chrono::DateTime<chrono::Utc>, quirk text, ["2020-01-02T01:02:03Z"]),
    ty!(jiff::civil::Date, quirk text, ["2020-01-02"]),
    ty!(jiff::civil::Time, quirk text, ["01:02:03"]),
    ty!(jiff::civil::DateTime, quirk text, ["2020-01-02T01:02:03"]),
    ty!(jiff::Timestamp, quirk text, ["2020-01-02T01:02:03Z"]),
    ty!(jiff::SignedDuration, quirk text, ["PT1S"]),
    ty!(jiff::Zoned, quirk text, ["2020-01-02T01:02:03+01:00[+01:00]"]),
    ty!(jiff::Span, quirk text, ["P1D"]),
    ty!(url::Url, quirk text, ["http://a/b"]),
];
#[cfg(feature = "c22")]
pub fn tp_de() {
    contract(TP)
}
#[cfg(feature = "c22")]
pub fn tp_ser() {
    serialized(TP)
}
fn schema<T: JsonSchema>(s: SchemaSettings) -> Value {
    s.into_generator().into_root_schema_for::<T>().to_value()
}
/// semver: the published pattern
#[cfg(feature = "c22")]
pub fn semver_text() {
    let s = schema::<semver::Version>(SchemaSettings::default());
    const T: &[&str] = &["1.0.3", "0.10.2-a.1", "1.2.3+b.01", "1.2.3-0-+x", "1.2"];
    let mut w = T[choose(T.len() as u8)].as_bytes().to_vec();
    let n = if cfg!(feature = "thorough") { 2 } else { 1 };
    for _ in 0..n {
        let at = choose(w.len() as u8);
        match choose(4) {
            0 => w[at] = byte(0x20, 0x7e),
            1 => w.insert(at, byte(0x20, 0x7e)),
            2 => w.push(byte(0x20, 0x7e)),
            _ => {
                w.remove(at);
            }
        }
    }
    let w = String::from_utf8(w).unwrap();
    let r = semver::Version::deserialize(BorrowedStrDeserializer::<Quiet>::new(&w)).is_ok();
    let j = json!(w);
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("schema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}");
    observe(&[ok as u8, r as u8]);
    check(ok == r, "the schema of semver::Version differs from what deserialization accepts");
    reach(if r { 1 } else { 2 });
}
/// strings and numbers for decimals
#[cfg(feature = "c22")]
pub fn decimal_text() {
    let big = cflag();
    let s = if big { schema::<bigdecimal::BigDecimal>(SchemaSettings::default()) } else { schema::<rust_decimal::Decimal>(SchemaSettings::default()) };
    let w = match choose(3) {
        0 => ascii(if cfg!(feature = "thorough") { 4 } else { 3 }),
        1 => format!("1.5{}", ascii(2)),
        _ => format!("-{}2.05e1", ascii(1)),
    };
    let d = BorrowedStrDeserializer::<Quiet>::new(&w);
    let r = if big { bigdecimal::BigDecimal::deserialize(d).is_ok() } else { <rust_decimal::Decimal as Deserialize>::deserialize(d).is_ok() };
    let j = json!(w);
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("big: {big} schema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}");
    observe(&[ok as u8, r as u8]);
    check(!ok || r, "the schema of a decimal type accepts a string that cannot be deserialized");
    reach(if r { 1 } else { 2 });
}
/// any 64-bit integer as a decimal
#[cfg(feature = "c22")]
pub fn decimal_number() {
    let big = cflag();
    let s = if big { schema::<bigdecimal::BigDecimal>(SchemaSettings::default()) } else { schema::<rust_decimal::Decimal>(SchemaSettings::default()) };
    let n = crate::jv::u64v();
    let (u, i) = (U64Deserializer::<Quiet>::new(n), I64Deserializer::<Quiet>::new(n as i64));
    let (j, r) = match (cflag(), big) {
        (true, true) => (json!(n), bigdecimal::BigDecimal::deserialize(u).is_ok()),
        (false, true) => (json!(n as i64), bigdecimal::BigDecimal::deserialize(i).is_ok()),
        (true, false) => (json!(n), <rust_decimal::Decimal as Deserialize>::deserialize(u).is_ok()),
        (false, false) => (json!(n as i64), <rust_decimal::Decimal as Deserialize>::deserialize(i).is_ok()),
    };
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("big: {big} schema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}");
    observe(&[ok as u8, r as u8]);
    check(ok == r, "the schema of a decimal type and deserialization disagree about an integer");
    reach(1);
}
/// what is written for decimals
#[cfg(feature = "c22")]
pub fn decimal_written() {
    let big = cflag();
    let gen = |s| if big { schema::<bigdecimal::BigDecimal>(s) } else { schema::<rust_decimal::Decimal>(s) };
    let (ser, de) = (gen(SchemaSettings::default().for_serialize()), gen(SchemaSettings::default()));
    let m = byte(0, 255) as i8 as i64;
    let scale = choose(12);
    let out = if big {
        let m = if cflag() { m } else { m * 1_000_000 };
        let scale = scale as i64 - if cfg!(feature = "thorough") { 5 } else { 0 };
        serde_json::to_value(bigdecimal::BigDecimal::new(m.into(), scale)).unwrap()
    } else {
        serde_json::to_value(rust_decimal::Decimal::new(m, scale as u32)).unwrap()
    };
    for s in [ser, de] {
        let v = V::new(&s, Dialect::D2020);
        let ok = v.ok(&out);
        explain!("big: {big} schema {s}\nwritten {out}: schema accepts it: {ok}");
        observe(&[ok as u8]);
        if big && out.as_str().is_some_and(|t| t.contains('E')) {
            check(ok, "the pattern of a decimal rejects scientific notation as written by bigdecimal");
        }
        check(ok, "the schema of a decimal type rejects what is written for a value");
    }
    reach(1);
}
