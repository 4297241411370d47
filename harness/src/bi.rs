//! C21: the JsonSchema implementations for the standard library against serde's implementations.
use crate::der::{contract, serialized, Ty, EXACT, REPEATED, SCHEMA_LENIENT, SERDE_LENIENT};
use crate::explain;
use crate::jv::*;
use crate::rx;
use crate::sx::*;
use crate::ty;
use crate::val::{Dialect, V};
use schemars::generate::SchemaSettings;
use schemars::JsonSchema;
use serde::de::value::{BorrowedStrDeserializer, I64Deserializer, U64Deserializer};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::*;
use std::num::*;
use std::ops::{Bound, Range, RangeInclusive};

#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct P {
    x: bool,
}
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub enum Key {
    Red,
    #[serde(rename = "dark blue")]
    Blue,
    #[serde(rename = "g/n")]
    Green,
}
/// documented variants: a oneOf of consts
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub enum DocKey {
    /// the first
    One,
    Two,
    /// the third
    Three,
}
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct Id(u8);
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
#[schemars(rename = "Weird/Name %")]
pub struct KeyRef(Key);
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
#[schemars(rename = "Odd/Key %")]
pub enum OddKey {
    Red,
    #[serde(rename = "dark blue")]
    Blue,
    #[serde(rename = "g/n")]
    Green,
}
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct OddRef(OddKey);
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct Word(#[schemars(regex(pattern = "^[a-c]$"))] String);
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
#[serde(untagged)]
pub enum Mixed {
    Num(u16),
    Col(Key),
}
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
#[serde(untagged)]
pub enum Loose {
    Int(i8),
    Text(String),
}

/// no random seed, so that native runs see the same order
type Fixed = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
fn dups(v: &Value) -> bool {
    match v {
        Value::Array(a) => (0..a.len()).any(|i| (0..i).any(|j| a[i] == a[j])) || a.iter().any(dups),
        Value::Object(m) => m.values().any(dups),
        _ => false,
    }
}
/// sets: serde takes repeated elements
fn set(v: &Value) -> u8 {
    match v {
        Value::Array(a) if (0..a.len()).any(|i| (0..i).any(|j| a[i] == a[j])) => REPEATED,
        _ if dups(v) => SERDE_LENIENT,
        _ => EXACT,
    }
}
/// serde rejects unknown entries, the schema does not mention them
fn extra(v: &Value, known: &[&str]) -> u8 {
    match v {
        Value::Object(m) if m.len() > 1 && (known.len() == 1 || m.keys().any(|k| !known.contains(&k.as_str()))) => SCHEMA_LENIENT,
        _ => EXACT,
    }
}
/// only some strings can be parsed
fn text(v: &Value) -> u8 {
    match v {
        Value::String(_) => SCHEMA_LENIENT,
        Value::Array(a) if a.iter().any(|x| text(x) != EXACT) => SCHEMA_LENIENT,
        _ => EXACT,
    }
}
#[rustfmt::skip]
pub const STD: &[Ty] = &[
    ty!(bool, [true]),
    ty!(String, ["q"]),
    ty!((), [null]),
    ty!(f32, [1, 1.5]),
    ty!(f64, [1, 1.5]),
    ty!(char, ["q"]),
    ty!(std::path::PathBuf, ["q"]),
    ty!(Vec<P>, [[{"x": true}, {"x": false}], []]),
    ty!(VecDeque<bool>, [[true, false], []]),
    ty!(LinkedList<String>, [["q", "r"], []]),
    ty!(BinaryHeap<bool>, [[true, false], []]),
    ty!(Box<[bool]>, [[true], []]),
    ty!(BTreeSet<bool>, quirk set, [[true, false], []]),
    ty!(HashSet<P, Fixed>, quirk set, [[{"x": true}, {"x": false}], []]),
    ty!([bool; 2], [[true, false]]),
    ty!([P; 1], [[{"x": true}]]),
    ty!([String; 0], [[]]),
    ty!((bool,), [[true]]),
    ty!((bool, String), [[true, "q"]]),
    ty!((P, (), [bool; 1]), [[{"x": true}, null, [true]]]),
    ty!(Option<bool>, [true, null]),
    ty!(Option<Option<P>>, [{"x": true}, null]),
    ty!(Option<()>, [null]),
    ty!(Vec<Option<bool>>, [[true, null]]),
    ty!(Result<bool, String>, quirk |v| extra(v, &[""]), [{"Ok": true}, {"Err": "q"}]),
    ty!(Result<Vec<P>, ()>, quirk |v| extra(v, &[""]), [{"Ok": [{"x": true}]}, {"Err": null}]),
    ty!(Bound<bool>, quirk |v| extra(v, &[""]), [{"Included": true}, {"Excluded": false}, "Unbounded"]),
    ty!(Range<bool>, quirk |v| extra(v, &["start", "end"]), [{"start": true, "end": false}]),
    ty!(RangeInclusive<Option<bool>>, quirk |v| extra(v, &["start", "end"]), [{"start": true, "end": null}]),
    ty!(std::time::Duration, quirk |v| extra(v, &["secs", "nanos"]), [{"secs": 1, "nanos": 2}]),
    ty!(std::time::SystemTime, quirk |v| extra(v, &["secs_since_epoch", "nanos_since_epoch"]), [{"secs_since_epoch": 1, "nanos_since_epoch": 2}]),
    ty!(std::ffi::OsString, quirk |v| if v.get("Windows").is_some() { SCHEMA_LENIENT } else { extra(v, &[""]) }, [{"Unix": [65, 66]}]),
    ty!(std::ffi::CString, quirk text, [[65, 66], "q", []]),
    ty!(std::net::Ipv4Addr, quirk text, ["1.2.3.4"]),
    ty!(std::net::IpAddr, quirk text, ["1.2.3.4"]),
    ty!(std::net::SocketAddr, quirk text, ["1.2.3.4:5"]),
    ty!(Box<P>, [{"x": true}]),
    ty!(std::rc::Rc<P>, [{"x": true}]),
    ty!(std::sync::Arc<Option<P>>, [{"x": true}, null]),
    ty!(std::rc::Weak<P>, [{"x": true}, null]),
    ty!(std::sync::Weak<bool>, [true, null]),
    ty!(std::sync::Mutex<bool>, [true]),
    ty!(std::sync::RwLock<P>, [{"x": true}]),
    ty!(std::cell::Cell<bool>, [true]),
    ty!(std::cell::RefCell<P>, [{"x": true}]),
    ty!(std::borrow::Cow<'static, P>, [{"x": true}]),
    ty!(Box<str>, ["q"]),
    ty!(Wrapping<u8>, [1]),
    ty!(std::cmp::Reverse<P>, [{"x": true}]),
    ty!(std::marker::PhantomData<P>, [null]),
    ty!(std::sync::atomic::AtomicBool, [true]),
    ty!(Value, [true, {"x": [1]}]),
    ty!(Map<String, Value>, [{"x": [1]}]),
    ty!(serde_json::Number, [1, 1.5]),
    ty!(BTreeMap<String, P>, [{"q": {"x": true}}, {}]),
    ty!(HashMap<String, Vec<bool>, Fixed>, [{"q": [true]}, {}]),
];
#[cfg(feature = "c21")]
pub fn std_de() {
    contract(STD)
}
#[cfg(feature = "c21")]
pub fn std_ser() {
    serialized(STD)
}

// ------------------------------------------------------------------------------------------ integers
#[derive(Debug)]
pub struct Quiet;
impl std::fmt::Display for Quiet {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Quiet {}
impl serde::de::Error for Quiet {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Quiet
    }
}
#[derive(Clone, Copy)]
enum Num {
    U(u64),
    I(i64),
}
struct Int {
    name: &'static str,
    schema: fn() -> Value,
    de: fn(Num) -> bool,
}
macro_rules! int {
    ($t:ty) => {
        Int {
            name: stringify!($t),
            schema: || SchemaSettings::default().into_generator().into_root_schema_for::<$t>().to_value(),
            de: |n| match n {
                Num::U(u) => <$t>::deserialize(U64Deserializer::<Quiet>::new(u)).is_ok(),
                Num::I(i) => <$t>::deserialize(I64Deserializer::<Quiet>::new(i)).is_ok(),
            },
        }
    };
}
#[rustfmt::skip]
const INTS: &[Int] = &[
    int!(u8), int!(u16), int!(u32), int!(u64), int!(usize), int!(u128),
    int!(i8), int!(i16), int!(i32), int!(i64), int!(isize), int!(i128),
    int!(NonZeroU8), int!(NonZeroU16), int!(NonZeroU32), int!(NonZeroU64), int!(NonZeroUsize), int!(NonZeroU128),
    int!(NonZeroI8), int!(NonZeroI16), int!(NonZeroI32), int!(NonZeroI64), int!(NonZeroIsize), int!(NonZeroI128),
    int!(Wrapping<u16>), int!(Wrapping<i64>), int!(std::cmp::Reverse<i8>),
    int!(std::sync::atomic::AtomicU8), int!(std::sync::atomic::AtomicI8), int!(std::sync::atomic::AtomicU16), int!(std::sync::atomic::AtomicI16),
    int!(std::sync::atomic::AtomicU32), int!(std::sync::atomic::AtomicI32), int!(std::sync::atomic::AtomicU64), int!(std::sync::atomic::AtomicI64),
    int!(std::sync::atomic::AtomicUsize), int!(std::sync::atomic::AtomicIsize),
    int!(f32), int!(f64),
];
/// every 64-bit integer
#[cfg(feature = "c21")]
pub fn std_ints() {
    let t = &INTS[choose(INTS.len() as u8)];
    let s = (t.schema)();
    let n = u64v();
    let (num, j) = if cflag() { (Num::U(n), json!(n)) } else { (Num::I(n as i64), json!(n as i64)) };
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    let r = (t.de)(num);
    explain!("{}\nschema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}", t.name);
    observe(&[ok as u8, r as u8]);
    check(!v.malformed.get(), "malformed keyword");
    check(ok || !r, "the schema of an integer type rejects one of its values");
    check(r || !ok, "the schema of an integer type accepts a number that is not a value of it");
    reach(if r { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ arrays and tuples
type De = fn(Value) -> bool;
type Sch = fn() -> Value;
macro_rules! seqs {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), || SchemaSettings::default().into_generator().into_root_schema_for::<$t>().to_value(), |v| serde_json::from_value::<$t>(v).is_ok())),*] };
}
#[rustfmt::skip]
const ARRAYS: &[(&str, Sch, De)] = seqs![
    [bool; 0], [bool; 1], [bool; 2], [bool; 3], [bool; 4], [bool; 5], [bool; 6], [bool; 7], [bool; 8], [bool; 9], [bool; 10],
    [bool; 11], [bool; 12], [bool; 13], [bool; 14], [bool; 15], [bool; 16], [bool; 17], [bool; 18], [bool; 19], [bool; 20], [bool; 21],
    [bool; 22], [bool; 23], [bool; 24], [bool; 25], [bool; 26], [bool; 27], [bool; 28], [bool; 29], [bool; 30], [bool; 31], [bool; 32],
];
type B = bool;
type S = String;
#[rustfmt::skip]
const TUPLES: &[(&str, Sch, De)] = seqs![
    (B,), (B, S), (B, S, B), (B, S, B, S), (B, S, B, S, B), (B, S, B, S, B, S), (B, S, B, S, B, S, B), (B, S, B, S, B, S, B, S),
    (B, S, B, S, B, S, B, S, B), (B, S, B, S, B, S, B, S, B, S), (B, S, B, S, B, S, B, S, B, S, B), (B, S, B, S, B, S, B, S, B, S, B, S),
    (B, S, B, S, B, S, B, S, B, S, B, S, B), (B, S, B, S, B, S, B, S, B, S, B, S, B, S), (B, S, B, S, B, S, B, S, B, S, B, S, B, S, B),
    (B, S, B, S, B, S, B, S, B, S, B, S, B, S, B, S),
];
fn sequence(ts: &[(&str, Sch, De)], max: usize, elem: fn(usize) -> Value) {
    let which = choose(ts.len() as u8);
    let (_name, schema, de) = ts[which];
    let s = schema();
    // all types have max - 1 different lengths
    let len = which + max - ts.len();
    let n = match choose(5) {
        0 => 0,
        1 => len.saturating_sub(1),
        2 => len,
        3 => len + 1,
        _ => max,
    };
    let mut a: Vec<Value> = (0..n).map(elem).collect();
    // one element may be of another type
    let at = choose(n as u8 + 1);
    if at < n {
        a[at] = match choose(3) {
            0 => Value::Null,
            1 => json!(1),
            _ => json!(""),
        };
    }
    let j = Value::Array(a);
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    let r = de(j.clone());
    explain!("{_name}\nschema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}");
    observe(&[ok as u8, r as u8]);
    check(!v.malformed.get(), "malformed keyword");
    check(ok == r, "the schema of an array or tuple type differs from what deserialization accepts");
    reach(if r { 1 } else { 2 });
}
#[cfg(feature = "c21")]
pub fn std_arrays() {
    sequence(ARRAYS, 33, |i| json!(i % 3 == 0))
}
#[cfg(feature = "c21")]
pub fn std_tuples() {
    sequence(TUPLES, 17, |i| if i % 2 == 0 { json!(true) } else { json!("s") })
}
#[cfg(feature = "c21")]
pub fn std_chars() {
    let s = SchemaSettings::default().into_generator().into_root_schema_for::<(char, String)>().to_value();
    let w = utf8(if cfg!(feature = "thorough") { 6 } else { 4 });
    let first = cflag();
    let r = if first { char::deserialize(BorrowedStrDeserializer::<Quiet>::new(&w)).is_ok() } else { true };
    let j = if first { json!([w, ""]) } else { json!(["a", w]) };
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("schema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}");
    observe(&[ok as u8, r as u8]);
    check(ok == r, "the schema of char or String differs from what deserialization accepts");
    reach(if r { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ map keys
struct KeyTy {
    name: &'static str,
    schema: Sch,
    de: De,
    /// 0: the keys of the type are all known; 1: any; 2: -?digits; 3: digits; 4: 1-digit or more, or a known one
    kind: u8,
}
macro_rules! key {
    ($t:ty, $k:expr) => {
        KeyTy {
            name: stringify!($t),
            schema: || SchemaSettings::default().into_generator().into_root_schema_for::<BTreeMap<$t, bool>>().to_value(),
            de: |v| serde_json::from_value::<BTreeMap<$t, bool>>(v).is_ok(),
            kind: $k,
        }
    };
}
#[rustfmt::skip]
const KEYS: &[KeyTy] = &[
    key!(String, 1), key!(char, 1), key!(bool, 1), key!(Key, 0), key!(DocKey, 1), key!(Id, 3), key!(KeyRef, 0), key!(OddKey, 0), key!(OddRef, 0), key!(Word, 5), key!(Mixed, 4), key!(Loose, 1),
    key!(u8, 3), key!(u64, 3), key!(u128, 3), key!(i8, 2), key!(i64, 2), key!(i128, 2), key!(NonZeroU8, 2), key!(NonZeroI32, 2), key!(Box<Key>, 0),
];
const NAMES: &[&str] = &["Red", "Blue", "dark blue", "Green", "g/n", "One", "Three", "true", "a", "-1", "12", "", "q"];
#[cfg(feature = "c21")]
pub fn std_maps() {
    let t = &KEYS[choose(KEYS.len() as u8)];
    let s = (t.schema)();
    let k = match choose(3) {
        0 => NAMES[choose(NAMES.len() as u8)].to_string(),
        1 => ascii(if cfg!(feature = "thorough") { 3 } else { 2 }),
        _ => {
            let w = NAMES[choose(NAMES.len() as u8)].as_bytes();
            let mut w = w.to_vec();
            let at = choose(w.len() as u8 + 1);
            w.insert(at, byte(0x20, 0x7e));
            String::from_utf8(w).unwrap()
        }
    };
    let mut m = Map::new();
    if cflag() {
        // another key that is certainly fine
        m.insert(if t.kind == 0 { "Red".into() } else if t.kind == 5 { "b".into() } else { "1".into() }, json!(true));
    }
    let good = cflag();
    m.insert(k.clone(), if good { json!(true) } else { json!(1) });
    let j = Value::Object(m);
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    let r = (t.de)(j.clone());
    let digits = |k: &str| !k.is_empty() && k.bytes().all(|c| c.is_ascii_digit());
    let known = matches!(&*k, "Red" | "dark blue" | "g/n");
    let fits = match t.kind {
        0 => known,
        1 => true,
        2 => digits(k.strip_prefix('-').unwrap_or(&k)),
        3 => digits(&k),
        4 => known || digits(&k),
        _ => matches!(&*k, "a" | "b" | "c"),
    };
    explain!("map with keys {}\nschema {s}\ninstance {j}: schema accepts it: {ok}, deserialization: {r}, expected {}", t.name, fits && good);
    observe(&[ok as u8, r as u8, fits as u8]);
    check(!v.dangling.get() && !v.malformed.get(), "malformed keyword");
    check(ok || !r || t.kind == 5 && !fits, "the schema of a map rejects a map that can be deserialized");
    check(!ok || good, "the schema of a map accepts a value of the wrong type");
    check(ok == (fits && good), "the schema of a map accepts a key of the wrong type");
    reach(if ok { 1 } else { 2 });
}

static mut KEY: Value = Value::Null;
/// a key type with any schema
pub struct AnyKey;
impl JsonSchema for AnyKey {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "AnyKey".into()
    }
    fn json_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
        schemars::Schema::try_from(unsafe { (*std::ptr::addr_of!(KEY)).clone() }).unwrap()
    }
}
#[derive(JsonSchema)]
#[schemars(rename = "Named/Key~ é")]
#[allow(dead_code)]
pub struct Named(AnyKey);
/// maps whose key type has any schema
#[cfg(feature = "c21")]
pub fn std_any_keys() {
    // what each option allows: 0 digits, 1 -?digits, 2 one of two names, 3 starts with a, 4 ends with z, 5 anything
    let n = choose(if cfg!(feature = "thorough") { 4 } else { 3 });
    let mut kinds = vec![];
    let mut options = vec![];
    for _ in 0..=n {
        let (k, s) = match choose(10) {
            0 => (0, json!({"type": "integer", "minimum": 0, "maximum": 255})),
            1 => (1, json!({"type": "integer", "format": "int64"})),
            2 => (1, json!({"type": "integer", "minimum": -128})),
            3 => (2, json!({"type": "string", "enum": ["Red", "dark blue"], "title": "t"})),
            4 => (3, json!({"type": "string", "pattern": "^a"})),
            5 => (4, json!({"type": "string", "pattern": "z$", "description": "d"})),
            6 => (5, json!({"type": "string"})),
            7 => (5, json!(true)),
            8 => (5, json!({})),
            _ => (5, json!({"type": "string", "const": "c"})),
        };
        kinds.push(k);
        options.push(s);
    }
    let whole = if options.len() == 1 && cflag() { options.remove(0) } else { json!({ "anyOf": options }) };
    // only one reference or one anyOf is looked into
    let precise = whole.get("anyOf").is_none();
    unsafe { *std::ptr::addr_of_mut!(KEY) = whole };
    let s = SchemaSettings::default().into_generator();
    let direct = cflag();
    let s = if direct { s.into_root_schema_for::<BTreeMap<AnyKey, bool>>() } else { s.into_root_schema_for::<BTreeMap<Named, bool>>() }.to_value();
    let k = match choose(3) {
        0 => ["Red", "dark blue", "Redd", "a1", "1z", "12", "-12", "--1", "-", "c"][choose(10)].to_string(),
        _ => ascii(2),
    };
    let good = cflag();
    let j = json!({ &*k: if good { json!(true) } else { json!(1) } });
    let digits = |k: &str| !k.is_empty() && k.bytes().all(|c| c.is_ascii_digit());
    let fits = kinds.iter().any(|kind| match kind {
        0 => digits(&k),
        1 => digits(k.strip_prefix('-').unwrap_or(&k)),
        2 => k == "Red" || k == "dark blue",
        3 => k.starts_with('a'),
        4 => k.ends_with('z'),
        _ => true,
    });
    let v = V::new(&s, Dialect::D2020);
    let ok = v.ok(&j);
    explain!("{s}\n{j}: {ok}, expected {}", fits && good);
    observe(&[ok as u8, fits as u8]);
    check(!v.dangling.get() && !v.malformed.get(), "malformed keyword");
    check(ok || !(fits && good), "the schema of a map rejects a key that its key type allows");
    check(!ok || good, "the schema of a map accepts a value of the wrong type");
    check(!ok || fits || !(direct || precise), "the schema of a map accepts a key that its key type does not allow");
    reach(if ok { 1 } else { 2 });
}
