//! C33: the defaults of fields.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};

/// the values that the types and functions below give, decided on first use
static mut VALS: [Option<Value>; 4] = [None, None, None, None];
static mut SKIP: Option<bool> = None;
static mut KIND: usize = 0;
fn val(i: usize) -> W {
    unsafe {
        if VALS[i].is_none() {
            VALS[i] = Some(match choose(if cfg!(feature = "thorough") { 8 } else { 6 }) {
                0 => Value::Null,
                1 => boolv(),
                2 => small_int(),
                3 => strv(1),
                4 => json!([boolv()]),
                5 => json!({ "k": boolv() }),
                6 => wide_int(),
                _ => json!([]),
            });
        }
        W(VALS[i].clone().unwrap())
    }
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(transparent)]
pub struct W(Value);
impl Default for W {
    fn default() -> W {
        val(0)
    }
}
fn schema() -> Schema {
    match unsafe { KIND } {
        0 => json_schema!({ "type": ["string", "null"] }),
        1 => json_schema!({ "type": "object", "properties": { "k": { "title": "K" } } }),
        2 => Schema::from(true),
        3 => json_schema!({ "oneOf": [{ "type": "integer" }, { "type": "null" }], "default": 7 }),
        _ => Schema::from(false),
    }
}
impl JsonSchema for W {
    fn inline_schema() -> bool {
        unsafe { KIND != 1 }
    }
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "W".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schema()
    }
}
fn b() -> W {
    val(1)
}
fn c() -> W {
    val(2)
}
fn some() -> Option<W> {
    if skip(&0) {
        Some(val(1))
    } else {
        None
    }
}
fn skip<T>(_: &T) -> bool {
    unsafe { *(*std::ptr::addr_of_mut!(SKIP)).get_or_insert_with(cflag) }
}
fn never<T>(_: &T) -> bool {
    false
}
/// skips by value
fn is_null(w: &W) -> bool {
    w.0.is_null()
}
fn ser<S: Serializer>(w: &W, s: S) -> Result<S::Ok, S::Error> {
    json!(["with", w.0]).serialize(s)
}
fn fails<S: Serializer>(_: &W, _: S) -> Result<S::Ok, S::Error> {
    Err(serde::ser::Error::custom("no"))
}
mod conv {
    use super::*;
    pub fn serialize<S: Serializer>(w: &W, s: S) -> Result<S::Ok, S::Error> {
        json!({ "conv": w.0 }).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<W, D::Error> {
        W::deserialize(d)
    }
}
/// cannot be serialized
#[derive(Default, Deserialize, JsonSchema)]
pub struct Mute;

struct D {
    name: &'static str,
    make: fn(SchemaSettings) -> Value,
    /// where the schema of the field is
    at: &'static str,
    /// what is written for what is read if the field is missing
    want: fn() -> Option<Value>,
}
fn written<T: Serialize + for<'de> Deserialize<'de>>(doc: Value, at: &str) -> Option<Value> {
    let t: T = match serde_json::from_value(doc) {
        Ok(t) => t,
        Err(_) => fail("a document without the field cannot be read"),
    };
    serde_json::to_value(t).ok()?.pointer(at).cloned()
}
fn of<T: JsonSchema>(s: SchemaSettings) -> Value {
    s.into_generator().into_root_schema_for::<T>().into()
}
macro_rules! d {
    ($name:literal, $t:ty) => {
        d!($name, $t, "/properties/f", json!({}), "/f")
    };
    ($name:literal, $t:ty, $at:literal) => {
        d!($name, $t, $at, json!({}), "/f")
    };
    ($name:literal, $t:ty, $at:literal, $doc:expr, $f:literal) => {
        D {
            name: $name,
            make: of::<$t>,
            at: $at,
            want: || written::<$t>($doc, $f),
        }
    };
    ($name:literal, $t:ty, $at:literal, $want:expr) => {
        D {
            name: $name,
            make: of::<$t>,
            at: $at,
            want: $want,
        }
    };
}
macro_rules! types {
    ($($(#[$c:meta])* $t:ident { $($(#[$a:meta])* $f:ident : $ty:ty),* $(,)? })*) => {
        $(#[derive(Serialize, Deserialize, JsonSchema)] $(#[$c])* pub struct $t { $($(#[$a])* $f: $ty),* })*
    };
}
types! {
    Plain { #[serde(default)] f: W }
    Path { #[serde(default = "b")] f: W, #[serde(default)] other: W }
    SkipIf { #[serde(default, skip_serializing_if = "skip")] f: W }
    SkipNull { #[serde(skip_serializing_if = "is_null", default = "b")] f: W }
    SerWith { #[serde(default = "b", serialize_with = "ser")] f: W }
    With { #[serde(with = "conv", default)] #[schemars(with = "W")] f: W }
    WithSkip { #[serde(with = "conv", default, skip_serializing_if = "is_null")] #[schemars(with = "W")] f: W }
    Fails { #[serde(default, serialize_with = "fails")] f: W }
    Opt { #[serde(default = "some")] f: Option<W> }
    List { #[serde(default)] f: Vec<bool>, #[serde(default = "b")] #[allow(dead_code)] g: W }
    InOnly { #[serde(default, skip_serializing)] f: W }
    OutOnly { #[serde(default = "b", skip_deserializing)] f: W }
    OutOnlySkip { #[serde(skip_deserializing, skip_serializing_if = "skip")] #[serde(default)] f: W }
    Renamed { #[serde(default = "b", rename = "g")] #[schemars(description = "d")] f: W }
    Marked { #[serde(default = "b")] #[schemars(title = "T", extend("x-a" = 1), length(min = 1))] #[deprecated] f: W }
    ByOther { #[serde(default = "b")] #[schemars(with = "u8")] f: W }
    Nested { #[serde(default)] f: ConClosed }
    Required { f: W }
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default)]
pub struct Con {
    f: W,
    g: bool,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default)]
pub struct ConField {
    #[serde(default = "b")]
    f: W,
    #[serde(default)]
    g: W,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default = "con_path")]
pub struct ConPath {
    f: W,
    g: W,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default)]
pub struct ConSkip {
    #[serde(skip_serializing_if = "is_null", serialize_with = "ser")]
    f: W,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default, rename_all = "UPPERCASE", deny_unknown_fields)]
pub struct ConClosed {
    ff: W,
    #[serde(skip_deserializing)]
    g: u8,
}
impl Default for Con {
    fn default() -> Con {
        Con { f: c(), g: true }
    }
}
impl Default for ConField {
    fn default() -> ConField {
        ConField { f: c(), g: c() }
    }
}
fn con_path() -> ConPath {
    ConPath { f: c(), g: b() }
}
impl Default for ConSkip {
    fn default() -> ConSkip {
        ConSkip { f: c() }
    }
}
impl Default for ConClosed {
    fn default() -> ConClosed {
        ConClosed { ff: c(), g: 3 }
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Gen<T: Default + Serialize, const N: usize> {
    #[serde(default)]
    f: T,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(default, bound = "T: Serialize + for<'a> Deserialize<'a> + Default")]
pub struct GenCon<T>
where
    T: Default + Serialize,
{
    f: Vec<T>,
}
impl<T: Default + Serialize> Default for GenCon<T> {
    fn default() -> Self {
        GenCon { f: vec![T::default()] }
    }
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub enum Ext {
    #[serde(rename_all = "UPPERCASE")]
    A {
        #[serde(default = "b", skip_serializing_if = "is_null")]
        f: W,
    },
    B,
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
pub enum Int {
    A {
        #[serde(default = "b")]
        f: W,
        #[serde(default)]
        g: W,
    },
    B(ConPath),
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum Adj {
    A {
        #[serde(default, serialize_with = "ser")]
        f: W,
    },
}
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged)]
pub enum Unt {
    A {
        #[serde(default = "b")]
        f: W,
    },
    B(u8),
}
#[derive(Serialize, Deserialize, JsonSchema)]
pub struct Flat {
    #[serde(flatten)]
    inner: ConPath,
    #[serde(default)]
    own: W,
}
// what schemars alone is told
#[derive(JsonSchema, Deserialize)]
#[allow(dead_code)]
struct Other {
    #[serde(default)]
    #[schemars(default = "b")]
    f: W,
    #[serde(default)]
    g: Mute,
}
#[derive(JsonSchema, Deserialize)]
#[allow(dead_code)]
struct OtherSkip {
    #[serde(default, skip_serializing_if = "never")]
    #[schemars(skip_serializing_if = "skip")]
    f: W,
}
#[derive(JsonSchema, Deserialize)]
#[allow(dead_code)]
struct Unset {
    #[serde(default, skip_serializing_if = "skip")]
    #[schemars(!default)]
    f: W,
}
#[derive(JsonSchema, Deserialize)]
#[allow(dead_code)]
struct UnsetSkip {
    #[serde(default, skip_serializing_if = "skip")]
    #[schemars(!skip_serializing_if)]
    f: W,
}
#[derive(JsonSchema)]
#[schemars(default)]
#[allow(dead_code)]
struct Only {
    f: W,
}
impl Default for Only {
    fn default() -> Only {
        Only { f: c() }
    }
}
fn types() -> [D; 42] {
    [
        d!("default", Plain),
        d!("path", Path),
        d!("second default", Path, "/properties/other", json!({}), "/other"),
        d!("skip_serializing_if", SkipIf),
        d!("skipped by value", SkipNull),
        d!("serialize_with", SerWith),
        d!("with", With),
        d!("with and skipped", WithSkip),
        d!("cannot be written", Fails),
        d!("Option", Opt),
        d!("list", List),
        d!("after a list", List, "/properties/g", json!({}), "/g"),
        d!("skip_serializing", InOnly),
        d!("skip_deserializing", OutOnly),
        d!("skip_deserializing and skipped", OutOnlySkip),
        d!("renamed", Renamed, "/properties/g", json!({}), "/g"),
        d!("with other attributes", Marked),
        d!("schemars with", ByOther),
        d!("container", Con),
        d!("container, second field", Con, "/properties/g", json!({}), "/g"),
        d!("container and field path", ConField),
        d!("container and field", ConField, "/properties/g", json!({}), "/g"),
        d!("container path", ConPath),
        d!("container path, second field", ConPath, "/properties/g", json!({}), "/g"),
        d!("container, skipped by value, serialize_with", ConSkip),
        d!("container, renamed", ConClosed, "/properties/FF", json!({}), "/FF"),
        d!("container, skip_deserializing", ConClosed, "/properties/G", json!({}), "/G"),
        d!("default of a struct", Nested),
        d!("no default", Required, "/properties/f", || None),
        d!("generic", Gen<W, 2>),
        d!("generic container", GenCon<W>),
        d!("external variant", Ext, "/oneOf/1/properties/A/properties/F", json!({ "A": {} }), "/A/F"),
        d!("internal variant", Int, "/oneOf/0/properties/f", json!({ "t": "A" }), "/f"),
        d!("internal newtype variant", Int, "/$defs/ConPath/properties/f", json!({ "t": "B" }), "/f"),
        d!("adjacent variant", Adj, "/oneOf/0/properties/c/properties/f", json!({ "t": "A", "c": {} }), "/c/f"),
        d!("untagged variant", Unt, "/anyOf/0/properties/f", json!({}), "/f"),
        d!("flattened", Flat),
        d!("schemars default", Other, "/properties/f", || Some(b().0)),
        d!("not Serialize", Other, "/properties/g", || None),
        d!("schemars skip_serializing_if", OtherSkip, "/properties/f", || if skip(&0) { None } else { Some(val(0).0) }),
        d!("schemars !skip_serializing_if", UnsetSkip, "/properties/f", || Some(val(0).0)),
        d!("schemars only", Only, "/properties/f", || Some(c().0)),
    ]
}
fn count(v: &Value) -> usize {
    match v {
        Value::Object(m) => m.get("default").map_or(0, |_| 1) + m.iter().filter(|(k, _)| *k != "default").map(|(_, v)| count(v)).sum::<usize>(),
        Value::Array(a) => a.iter().map(count).sum(),
        _ => 0,
    }
}
/// the default of a field is what is written for the value that is used if it is missing
pub fn default_values() {
    let ts = types();
    let t = &ts[choose(ts.len() as u8)];
    unsafe { KIND = choose(5) };
    let ser = cflag();
    let want = (t.want)();
    let st = SchemaSettings::default();
    let s = (t.make)(if ser { st.for_serialize() } else { st.for_deserialize() });
    explain!("{} {}\nschema: {s}\nwanted: {want:?}", t.name, if ser { "for serializing" } else { "for deserializing" });
    observe_value(&s);
    let Some(f) = s.pointer(t.at) else {
        // only one direction has the field
        check(if ser { t.name == "skip_serializing" } else { t.name.contains("skip_deserializing") }, "the field has no schema");
        return;
    };
    let got = f.get("default");
    // (the schema of the field's type may have a default of its own, as in KIND 3)
    let own = if unsafe { KIND } == 3 && want.is_none() { schema().get("default").cloned() } else { None };
    match (&want, got) {
        (Some(w), Some(g)) => {
            check(w == g, "the default is not what is written for a missing field");
            reach(1);
        }
        (None, g) => {
            check(g.is_none() || own.is_some(), "a default that is not written for a missing field");
            reach(2);
        }
        _ => fail("the default of the field is not in its schema"),
    }
}
/// a field has its default wherever it stands, and nothing else has it
pub fn default_unset() {
    unsafe { KIND = [0, 1, 2, 4][choose(4)] };
    let st = SchemaSettings::default();
    let s = of::<Unset>(if cflag() { st.for_serialize() } else { st.for_deserialize() });
    explain!("{s}");
    observe_value(&s);
    check(count(&s) == 0, "a default although it was taken away");
    let s = of::<Required>(SchemaSettings::default());
    check(count(&s) == 0, "a default although there is none");
    let s = of::<Plain>(SchemaSettings::default());
    check(count(&s) == 1, "the default is not in exactly one place");
    reach(1);
}
