//! C27: annotations (titles, descriptions, examples, deprecation, extensions, transforms).
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{Dialect, V};
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::{json, Map, Value};

const THOROUGH: bool = cfg!(feature = "thorough");
static mut TITLE: String = String::new();
static mut DESC: String = String::new();
static mut EXT: Value = Value::Null;
static mut EX: Value = Value::Null;
static mut TITLES: bool = false;
static mut SER: bool = false;
static mut KIND: usize = 0;
pub fn t() -> String {
    unsafe { TITLE.clone() }
}
pub fn d() -> String {
    unsafe { DESC.clone() }
}
pub fn ext() -> Value {
    unsafe { EXT.clone() }
}
pub fn ex() -> Value {
    unsafe { EX.clone() }
}
pub fn one() -> Vec<u8> {
    vec![1]
}
/// the first of two transforms: keeps what it finds
pub fn first(s: &mut Schema) {
    let found = the_item(|k| s.get(k));
    s.insert("x-item".to_string(), found);
    for (to, from) in [("x-1d", "description"), ("x-1a", "x-a"), ("x-12", "x-2")] {
        let v = s.get(from).cloned().unwrap_or(Value::Null);
        s.insert(to.to_string(), v);
    }
}
pub fn second(s: &mut Schema) {
    let v = s.get("x-1a").cloned().unwrap_or(Value::Null);
    s.insert("x-2".to_string(), v);
    s.insert("title".to_string(), json!("from a transform"));
}
pub fn some_schema(_: &mut SchemaGenerator) -> Schema {
    json_schema!({ "type": "integer", "title": "own" })
}

/// what the attributes of a set ask for: None stands for whatever was there before
type Want = Vec<(&'static str, Option<Value>)>;
fn text(s: String, or: Option<Value>) -> Option<Value> {
    if s.is_empty() { or } else { Some(Value::String(s)) }
}
/// what a transform finds of the item's own schema
fn the_item<'a>(get: impl Fn(&str) -> Option<&'a Value>) -> Value {
    let size = |k| match get(k) {
        Some(Value::Array(a)) => json!(a.len()),
        Some(Value::Object(o)) => json!(o.len()),
        other => json!(other),
    };
    json!([size("type"), size("required"), size("properties"), size("prefixItems"), size("oneOf")])
}
const KEYS: [&str; 11] = ["x-item", "title", "description", "deprecated", "examples", "x-a", "x-b", "x-1d", "x-1a", "x-12", "x-2"];
const SETS: u8 = 6;
fn want(set: usize, base: &Map<String, Value>) -> Want {
    let s = |x: &str| Some(json!(x));
    let bt = base.get("title").cloned();
    let bd = base.get("description").cloned();
    match set {
        0 => vec![("title", text(t(), bt)), ("description", text(d(), bd)), ("examples", Some(Value::Array(vec![ex(), json!([1])]))), ("x-a", Some(ext()))],
        // an explicit title or description takes the place of the documentation, even if empty
        1 => vec![("title", text(t(), bt)), ("description", s("text\nmore")), ("x-b", Some(json!({ "k": [ext()] })))],
        2 => vec![("title", s("Head")), ("description", text(d(), bd)), ("deprecated", Some(json!(true))), ("examples", Some(Value::Array(vec![ex()])))],
        3 => {
            let item = the_item(|k| base.get(k));
            vec![("x-item", Some(item)), ("title", s("from a transform")), ("description", s("plain #x\n # y")), ("x-a", Some(ext())), ("x-1d", s("plain #x\n # y")), ("x-1a", Some(ext())), ("x-12", Some(Value::Null)), ("x-2", Some(ext()))]
        }
        4 => vec![("title", Some(ext())), ("description", Some(json!({ "k": ext() }))), ("deprecated", Some(ext())), ("x-a", Some(Value::Null)), ("examples", Some(Value::Array(vec![])))],
        _ => vec![("deprecated", Some(json!(true))), ("title", s("T")), ("description", bd)],
    }
}

pub struct Place {
    name: &'static str,
    at: &'static str,
    make: fn() -> Value,
    wrap: fn(Value) -> Value,
}
fn schema_of<T: JsonSchema>() -> Value {
    let mut s = SchemaSettings::default();
    s.untagged_enum_variant_titles = unsafe { TITLES };
    if unsafe { SER } {
        s = s.for_serialize();
    }
    s.into_generator().into_root_schema_for::<T>().to_value()
}
macro_rules! place {
    ($name:literal, $at:literal, $v:ident => $wrap:tt, $x:ty, { $($def:tt)* }) => {{
        #[allow(dead_code, deprecated)]
        mod m {
            use super::*;
            $($def)*
            pub fn make<T: Any>() -> Value {
                schema_of::<$x>()
            }
        }
        Place { name: $name, at: $at, make: m::make::<T>, wrap: |$v| json!($wrap) }
    }};
}
macro_rules! fields {
    ($f:ident, [$(#[$a:meta])*]) => { fields!($f, [$(#[$a])*], #[serde(transparent)], #[serde(skip_serializing)]); };
    ($f:ident, [$(#[$a:meta])*], #[$two:meta], #[$three:meta]) => {
        #[allow(deprecated)]
        fn $f<T: Any>(i: usize) -> Option<Place> {
            Some(match i {
                0 => place!("struct field", "/properties/f", v => {"f": v}, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any> { $(#[$a])* f: T } }),
                1 => place!("newtype", "", v => v, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any>($(#[$a])* T); }),
                2 => place!("transparent", "/properties/x", v => {"x": v}, Z<T>, { #[derive(JsonSchema)] pub struct Z<T: Any> { x: X<T> } #[derive(JsonSchema)] #[$two] pub struct X<T: Any> { $(#[$a])* f: T } }),
                3 => place!("tuple struct", "/prefixItems/1", v => [1, v], X<T>, { #[derive(JsonSchema)] pub struct X<T: Any>(u8, $(#[$a])* T); }),
                4 => place!("newtype variant's field", "/oneOf/1/properties/A", v => {"A": v}, X<T>, { #[derive(JsonSchema)] pub enum X<T: Any> { A($(#[$a])* T), B } }),
                5 => place!("tuple variant's field", "/oneOf/1/properties/A/prefixItems/0", v => {"A": [v, 1]}, X<T>, { #[derive(JsonSchema)] pub enum X<T: Any> { A($(#[$a])* T, u8), B } }),
                6 => place!("struct variant's field", "/oneOf/1/properties/A/properties/f", v => {"A": {"f": v}}, X<T>, { #[derive(JsonSchema)] pub enum X<T: Any> { A { $(#[$a])* f: T }, B } }),
                7 => place!("internally tagged struct variant's field", "/oneOf/0/properties/f", v => {"t": "A", "f": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T: Any> { A { $(#[$a])* f: T }, B } }),
                8 => place!("internally tagged newtype variant's field", "/oneOf/0", v => {"t": "A", "x": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T: Any> { A($(#[$a])* T), B } }),
                9 => place!("adjacently tagged newtype variant's field", "/oneOf/0/properties/c", v => {"t": "A", "c": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] pub enum X<T: Any> { A($(#[$a])* T), B } }),
                10 => place!("adjacently tagged struct variant's field", "/oneOf/0/properties/c/properties/f", v => {"t": "A", "c": {"f": v}}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] pub enum X<T: Any> { A { $(#[$a])* f: T }, B } }),
                11 => place!("untagged newtype variant's field", "/anyOf/0", v => v, X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T: Any> { A($(#[$a])* T), B } }),
                12 => place!("untagged tuple variant's field", "/anyOf/0/prefixItems/0", v => [v, 1], X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T: Any> { A($(#[$a])* T, u8), B } }),
                13 => place!("untagged struct variant's field", "/anyOf/0/properties/f", v => {"f": v}, X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T: Any> { A { $(#[$a])* f: T }, B } }),
                14 => place!("field of a variant untagged by itself", "/anyOf/1/prefixItems/0", v => [v, 1], X<T>, { #[derive(JsonSchema)] pub enum X<T: Any> { C, #[serde(untagged)] A($(#[$a])* T, u8) } }),
                15 => place!("field of a flattened struct", "/properties/f", v => {"f": v, "g": 1}, X<T>, { #[derive(JsonSchema)] pub struct Y<T: Any> { $(#[$a])* f: T } #[derive(JsonSchema)] pub struct X<T: Any> { g: u8, #[serde(flatten)] y: Y<T> } }),
                16 => place!("renamed, defaulted, constrained field", "/properties/n", v => {"n": v}, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any> { #[serde(rename = "n", skip_serializing_if = "x", default = "y::<T>")] #[schemars(with = "T")] $(#[$a])* #[validate(length(min = 1))] f: Option<T> } fn x<T>(_: &Option<T>) -> bool { true } fn y<T>() -> Option<T> { None } }),
                17 => place!("write-only field", "/properties/f", v => {"f": v}, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any> { #[$three] $(#[$a])* f: T, g: Option<T> } }),
                18 => place!("field with a schema of its own", "/properties/f", v => {"f": v}, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any> { #[schemars(schema_with = "some_schema")] $(#[$a])* f: T } }),
                19 => place!("required field", "/properties/f", v => {"f": v}, X<T>, { #[derive(JsonSchema)] pub struct X<T: Any> { $(#[$a])* #[schemars(required)] f: T } }),
                _ => return None,
            })
        }
    };
}
macro_rules! variants {
    ($f:ident, [$(#[$a:meta])*]) => {
        #[allow(deprecated)]
        fn $f<T: Any>(i: usize) -> Option<Place> {
            Some(match i {
                0 => place!("unit variant", "/oneOf/1", v => v, X<T>, { #[derive(JsonSchema)] pub enum X<T> { $(#[$a])* A, B, C(T) } }),
                1 => place!("only unit variants", "/oneOf/1", v => v, X, { #[derive(JsonSchema)] pub enum X { B, $(#[$a])* A, C } }),
                2 => place!("newtype variant", "/oneOf/1", v => {"A": v}, X<T>, { #[derive(JsonSchema)] pub enum X<T> { $(#[$a])* A(T), B } }),
                3 => place!("tuple variant", "/oneOf/0", v => {"A": [v, 1]}, X<T>, { #[derive(JsonSchema)] pub enum X<T> { $(#[$a])* A(T, u8) } }),
                4 => place!("struct variant", "/oneOf/1", v => {"A": {"f": v}}, X<T>, { #[derive(JsonSchema)] pub enum X<T> { C(u8), $(#[$a])* A { f: T } } }),
                5 => place!("variant with a schema of its own", "/oneOf/0", v => {"A": v}, X<T>, { #[derive(JsonSchema)] pub enum X<T> { $(#[$a])* #[schemars(schema_with = "some_schema")] A(T), C(u8) } }),
                6 => place!("internally tagged unit variant", "/oneOf/1", v => {"t": "A", "f": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T> { B { f: T }, $(#[$a])* A } }),
                7 => place!("internally tagged newtype variant", "/oneOf/0", v => {"t": "A", "x": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T> { $(#[$a])* A(T), B } }),
                8 => place!("internally tagged struct variant", "/oneOf/0", v => {"t": "A", "f": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T> { $(#[$a])* A { f: T }, B } }),
                9 => place!("adjacently tagged unit variant", "/oneOf/1", v => {"t": "A", "c": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] pub enum X<T> { B(T), $(#[$a])* A } }),
                10 => place!("adjacently tagged newtype variant", "/oneOf/0", v => {"t": "A", "c": v}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c", deny_unknown_fields)] pub enum X<T> { $(#[$a])* A(T), B } }),
                11 => place!("adjacently tagged struct variant", "/oneOf/0", v => {"t": "A", "c": {"f": v}}, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] pub enum X<T> { $(#[$a])* A { f: T }, B } }),
                12 => place!("untagged unit variant", "/anyOf/1", v => v, X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T> { B(T), $(#[$a])* A } }),
                13 => place!("untagged newtype variant", "/anyOf/0", v => v, X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T> { $(#[$a])* A(T), B } }),
                14 => place!("untagged tuple variant", "/anyOf/0", v => [v, 1], X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T> { $(#[$a])* A(T, u8), B } }),
                15 => place!("untagged struct variant", "/anyOf/0", v => {"f": v}, X<T>, { #[derive(JsonSchema)] #[serde(untagged)] pub enum X<T> { $(#[$a])* A { f: T }, B } }),
                16 => place!("variant untagged by itself", "/anyOf/1", v => [v, 1], X<T>, { #[derive(JsonSchema)] pub enum X<T> { C, #[serde(untagged)] $(#[$a])* A(T, u8) } }),
                17 => place!("unit variant untagged by itself", "/anyOf/1", v => v, X<T>, { #[derive(JsonSchema)] #[serde(tag = "t")] pub enum X<T> { C { f: T }, $(#[$a])* #[serde(untagged)] A } }),
                18 => place!("renamed, aliased variant", "/oneOf/0", v => {"n": v}, X<T>, { #[derive(JsonSchema)] #[serde(rename_all = "UPPERCASE")] pub enum X<T> { $(#[$a])* #[serde(rename = "n", alias = "m")] A(T), #[serde(skip)] B } }),
                19 => place!("variant of a flattened enum", "/oneOf/0", v => {"g": 1, "A": v}, X<T>, { #[derive(JsonSchema)] pub enum Y<T> { $(#[$a])* A(T), B { x: u8 } } #[derive(JsonSchema)] pub struct X<T> { g: u8, #[serde(flatten)] y: Y<T> } }),
                _ => return None,
            })
        }
    };
}
macro_rules! containers {
    ($f:ident, [$(#[$a:meta])*]) => {
        #[allow(deprecated)]
        fn $f<T: Any>(i: usize) -> Option<Place> {
            macro_rules! both {
                ($name:literal, $v:ident => $wrap:tt, {$g:item}) => { both!($name, $v => $wrap, {$g} {}) };
                ($name:literal, $v:ident => $wrap:tt, {$g:item} {$more:item}) => { if i % 2 == 0 {
                    place!($name, "", $v => $wrap, X<T>, { #[derive(JsonSchema)] $(#[$a])* $g $more })
                } else {
                    place!($name, "/properties/x", $v => { "x": $wrap }, Z<T>, { #[derive(JsonSchema)] pub struct Z<T> { x: X<T> } #[derive(JsonSchema)] $(#[$a])* $g $more })
                } };
            }
            #[derive(JsonSchema)]
            #[allow(dead_code)]
            struct From1<T> { f: T }
            Some(match i / 2 {
                0 => both!("named fields", v => {"f": v}, {#[derive()] pub struct X<T> { f: T }} {#[derive()] struct W;}),
                1 => both!("newtype", v => v, {#[derive()] pub struct X<T>(T);} {#[derive()] struct W;}),
                2 => both!("tuple", v => [v, 1], {#[derive()] pub struct X<T>(T, u8);} {#[derive()] struct W;}),
                3 | 12 | 16..=18 if i % 2 == 0 => both!("no fields", v => {"f": v}, {#[schemars(bound = "T: JsonSchema")] pub struct X<T> { #[serde(skip)] f: [T; 0] } } {#[derive()] struct W;}),
                3 => both!("transparent", v => v, {#[serde(transparent)] pub struct X<T> { f: T }} {#[derive()] struct W;}),
                4 => both!("externally tagged", v => {"A": v}, {#[derive()] pub enum X<T> { A(T), B }} {#[derive()] struct W;}),
                5 => both!("internally tagged", v => {"t": "A", "f": v}, {#[serde(tag = "t")] pub enum X<T> { A { f: T }, B }} {#[derive()] struct W;}),
                6 => both!("adjacently tagged", v => {"t": "A", "c": v}, {#[serde(tag = "t", content = "c")] pub enum X<T> { A(T), B }} {#[derive()] struct W;}),
                7 => both!("untagged", v => v, {#[serde(untagged)] pub enum X<T> { A(T), B }} {#[derive()] struct W;}),
                8 => both!("no unknown fields, flattened", v => {"f": v, "g": 1}, {#[serde(deny_unknown_fields)] pub struct X<T> { g: u8, #[serde(flatten)] y: Y<T> }} {#[derive(JsonSchema)] struct Y<T> { f: T }}),
                9 => both!("inline", v => {"f": v}, {#[schemars(inline)] pub struct X<T> { f: T }} {#[derive()] struct W;}),
                10 => both!("from and into", v => {"f": v}, {#[serde(from = "Y<T>", into = "Y<T>")] pub struct X<T> { z: T }} {#[derive(JsonSchema)] struct Y<T> { f: T }}),
                11 => both!("from", v => {"f": v}, {#[serde(try_from = "Y<T>")] pub struct X<T> { z: T }} {#[derive(JsonSchema)] #[schemars(title = "Y", description = "y")] struct Y<T> { f: T }}),
                12 => both!("with", v => {"f": v}, {#[schemars(with = "Y<T>")] pub struct X<T> { z: T }} {#[derive(JsonSchema)] struct Y<T> { f: T }}),
                13 => both!("no variants", v => v, {#[schemars(bound = "T: JsonSchema")] pub enum X<T> { #[serde(skip)] A(T) }} {#[derive()] struct W;}),
                14 => both!("renamed", v => {"f": v}, {#[serde(rename = "N")] pub struct X<T> { f: T }} {#[derive()] struct W;}),
                16 => both!("transparent and optional", v => v, {#[serde(transparent)] pub struct X<T> { f: Option<T> }} {#[derive()] struct W;}),
                17 => both!("with an optional type", v => v, {#[schemars(with = "Option<T>")] pub struct X<T> { z: T }} {#[derive()] struct W;}),
                18 => both!("from an optional type", v => v, {#[serde(from = "Option<T>")] pub struct X<T> { z: T }} {#[derive()] struct W;}),
                15 => both!("with a tag", v => {"f": v}, {#[serde(tag = "t", deny_unknown_fields)] pub struct X<T> { f: T }} {#[derive()] struct W;}),
                _ => return None,
            })
        }
    };
}
macro_rules! sets {
    ($m:ident, $none:ident, $pick:ident, $($f:ident),*; $n:ident) => {
        mod $n {
            use super::*;
            $m!($none, []);
            sets!(@ $m, $($f),*);
            pub fn pick<T: Any>(set: usize, i: usize) -> Option<(Place, Place)> {
                let fs: [fn(usize) -> Option<Place>; 6] = [$($f::<T>),*];
                Some((fs[set](i)?, $none::<T>(i)?))
            }
        }
    };
    (@ $m:ident, $f0:ident, $f1:ident, $f2:ident, $f3:ident, $f4:ident, $f5:ident) => {
        $m!($f0, [#[schemars(title = t(), description = d(), example = ex(), example = one(), extend("x-a" = ext()))]]);
        $m!($f1, [#[doc = " # Doc title #"] #[doc = ""] #[doc = " text\nmore "] #[schemars(title = t())] #[schemars(extend("x-b" = { "k": [ext()] }))]]);
        $m!($f2, [#[doc = "## Head \n para"] #[schemars(example = ex())] #[schemars(description = d())] #[deprecated = "x"]]);
        $m!($f3, [#[schemars(transform = first)] #[doc = " plain #x"] #[schemars(extend("x-a" = ext()))] #[doc = "  # y"] #[schemars(transform = second)]]);
        $m!($f4, [#[doc = " # Z"] #[doc = " z"] #[deprecated] #[schemars(example = 1)] #[schemars(extend("examples" = [], "deprecated" = ext(), "title" = ext(), "description" = { "k": ext() }, "x-a" = null))]]);
        $m!($f5, [#[deprecated(note = "n")] #[schemars(title = "T")] #[doc = ""] #[doc = "  "]]);
    };
}
sets!(fields, none, pick, s0, s1, s2, s3, s4, s5; in_fields);
sets!(variants, none, pick, s0, s1, s2, s3, s4, s5; in_variants);
sets!(containers, none, pick, s0, s1, s2, s3, s4, s5; in_containers);

/// a type with any of several schemas
#[derive(Default)]
pub struct Dy;
pub trait Any: JsonSchema + Default {}
impl Any for Dy {}
impl JsonSchema for Dy {
    fn inline_schema() -> bool {
        unsafe { KIND != 1 }
    }
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "Dy".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        match unsafe { KIND } {
            0 => json_schema!({ "type": "string" }),
            1 => json_schema!({ "type": "object", "properties": { "x": { "type": "integer", "title": "X" } }, "required": ["x"] }),
            2 => Schema::from(true),
            3 => json_schema!({ "type": ["object", "null"], "title": "In", "examples": [1], "additionalProperties": false }),
            4 => json_schema!({ "oneOf": [{ "type": "integer", "description": "d" }, { "type": "null" }], "deprecated": false }),
            _ => Schema::from(false),
        }
    }
}

fn count(v: &Value, n: &mut [usize; KEYS.len()]) {
    match v {
        Value::Object(m) => {
            for (k, v) in m {
                if let Some(i) = KEYS.iter().position(|x| x == k) {
                    n[i] += 1;
                }
                count(v, n);
            }
        }
        Value::Array(a) => a.iter().for_each(|v| count(v, n)),
        _ => {}
    }
}
fn node<'a>(root: &'a Value, at: &str) -> Option<&'a Value> {
    let n = root.pointer(at)?;
    // a type on its own is described where it is defined
    if at == "/properties/x" {
        if let Some(r) = n.get("$ref").and_then(Value::as_str) {
            return root.pointer(r.strip_prefix('#')?);
        }
    }
    Some(n)
}
fn judge(set: usize, p: &Place, base: &Place) {
    let (with, without) = ((p.make)(), (base.make)());
    explain!("{} set {set}\n{with}\nwithout: {without}", p.name);
    let at = node(&with, p.at);
    let empty = Map::new();
    let old = node(&without, p.at).and_then(Value::as_object).unwrap_or(&empty);
    let Some(Value::Object(now)) = at else { fail("no schema where the annotations belong") };
    let mut wanted = want(set, old);
    for k in KEYS {
        if !wanted.iter().any(|(w, _)| *w == k) {
            wanted.push((k, old.get(k).cloned()));
        }
    }
    let (mut a, mut b) = ([0; KEYS.len()], [0; KEYS.len()]);
    count(&with, &mut a);
    count(&without, &mut b);
    for (i, k) in KEYS.iter().enumerate() {
        let w = wanted.iter().find(|(w, _)| w == k).and_then(|(_, w)| w.as_ref());
        // (a reference stands for the schema elsewhere; a unit variant has no schema of its own without
        // annotations; the field of an internally tagged newtype variant has its annotations before the tag)
        let unknown = *k == "x-item" && (now.contains_key("$ref") || p.name.contains("unit variant") || p.name == "internally tagged newtype variant's field");
        check(now.get(*k) == w || unknown, "an annotation is not the one that was asked for");
        check(a[i] + old.contains_key(*k) as usize == b[i] + w.is_some() as usize, "an annotation is in another place too");
    }
}
/// the schema with annotations accepts what the schema without them accepts
fn same(p: &Place, base: &Place) {
    let (with, without) = ((p.make)(), (base.make)());
    explain!("{}\n{with}\nwithout: {without}", p.name);
    let v = match choose(4) {
        0 => json!({ "x": byte(0, 3) }),
        1 => Value::String(ascii(1)),
        _ => [Value::Null, json!({}), json!(1), json!(true)][choose(4)].clone(),
    };
    let v = match choose(4) {
        0 => v,
        1 => json!(["A", "B", "n"][choose(3)]),
        2 => json!({ "x": v, "t": "B" }),
        _ => (p.wrap)(v),
    };
    let (x, y) = (V::new(&with, Dialect::D2020), V::new(&without, Dialect::D2020));
    let (a, b) = (x.ok(&v), y.ok(&v));
    explain!("{v}");
    observe(&[a as u8, b as u8]);
    check(!x.dangling.get() && !x.malformed.get(), "dangling reference or malformed keyword");
    check(a == b, "annotations change which documents are valid");
    reach(if a { 2 } else { 3 });
}
fn symbols(set: usize) {
    unsafe {
        TITLE = if set < 2 { utf8(2) } else { String::new() };
        DESC = if set == 0 || set == 2 { utf8(1) } else { String::new() };
        EXT = match choose(3) {
            0 => Value::Null,
            1 => Value::Bool(flag()),
            _ => Value::String(ascii(1)),
        };
        EX = if set == 0 || set == 2 { Value::from(byte(0, 255)) } else { Value::Null };
    }
}
macro_rules! run {
    ($n:ident, $count:expr) => {{
        let set = choose(SETS);
        let i = choose($count);
        unsafe {
            KIND = choose(6);
            SER = THOROUGH && cflag();
        }
        let got = $n::pick::<Dy>(set, i);
        let Some((p, base)) = got else { fail("no such position") };
        if cflag() {
            symbols(set);
            judge(set, &p, &base);
            reach(1)
        } else {
            unsafe {
                (TITLE, DESC, EXT, EX) = ("t".into(), "d".into(), json!("e"), json!(1));
            }
            same(&p, &base)
        }
    }};
}
pub fn on_fields() {
    run!(in_fields, 20)
}
pub fn on_variants() {
    run!(in_variants, 20)
}
pub fn on_containers() {
    run!(in_containers, 38)
}

/// the title and description of documentation text
pub fn doc_text() {
    let s = match choose(3) {
        0 => utf8(if THOROUGH { 6 } else { 5 }),
        1 => ascii(if THOROUGH { 7 } else { 6 }),
        _ => {
            let mut s = String::from(["# a b\n", "##\t\u{e9} #\r\n\n", "x\n# y\n", " \n#"][choose(4)]);
            s.push_str(&utf8(3));
            s.push_str(["", " z", "\n"][choose(3)]);
            s
        }
    };
    let (title, desc) = schemars::_private::get_title_and_description(&s);
    explain!("{s:?}: {title:?} {desc:?}");
    let white = |b: &u8| matches!(*b, b' ' | b'\t' | b'\n' | b'\r' | 12);
    fn trim<'a>(b: &'a [u8], white: &dyn Fn(&u8) -> bool) -> &'a [u8] {
        let Some(i) = b.iter().position(|x| !white(x)) else { return &[] };
        let j = b.iter().rposition(|x| !white(x)).unwrap();
        &b[i..=j]
    }
    let text = trim(s.as_bytes(), &white);
    if text.first() == Some(&b'#') {
        let end = text.iter().position(|b| *b == b'\n').unwrap_or(text.len());
        let hashes = text.iter().position(|b| *b != b'#').unwrap_or(text.len());
        let want = trim(&text[hashes..end.max(hashes)], &white);
        check(title.as_bytes() == want, "the title is not the heading");
        check(desc.as_bytes() == trim(&text[end..], &white), "the description is not what follows the heading");
        reach(1);
    } else {
        check(title.is_empty(), "a title without a heading");
        check(desc.as_bytes() == text, "the description is not the text");
        reach(2);
    }
}

// ------------------------------------------------------------------------------------------ C32
#[cfg(feature = "c32")]
mod marks {
    use super::*;
    fields!(none, []);
    fields!(ser, [#[serde(skip_serializing)]], #[doc = ""], #[doc = ""]);
    fields!(de, [#[serde(skip_deserializing)]], #[doc = ""], #[doc = ""]);
    fields!(ser2, [#[schemars(skip_serializing)] #[doc = "d"]], #[doc = ""], #[doc = ""]);
    fields!(de2, [#[schemars(skip_deserializing, extend("x-a" = 1))]], #[doc = ""], #[doc = ""]);
    fields!(taken, [#[serde(skip_serializing)] #[schemars(!skip_serializing)]], #[doc = ""], #[doc = ""]);
    fn strip(v: &Value, keys: &[&str]) -> Value {
        match v {
            Value::Object(m) => {
                let m: Map<String, Value> = m.iter().filter(|(k, _)| !keys.contains(&k.as_str())).map(|(k, v)| (k.clone(), strip(v, keys))).collect();
                if m.is_empty() {
                    Value::Bool(true)
                } else if m.len() == 1 && m.get("not").map_or(false, |n| *n == json!({}) || *n == json!(true)) {
                    Value::Bool(false)
                } else {
                    Value::Object(m)
                }
            }
            Value::Array(a) => a.iter().map(|v| strip(v, keys)).collect(),
            _ => v.clone(),
        }
    }
    fn count(v: &Value, key: &str) -> usize {
        match v {
            Value::Object(m) => m.iter().map(|(k, v)| (k == key) as usize + count(v, key)).sum(),
            Value::Array(a) => a.iter().map(|v| count(v, key)).sum(),
            _ => 0,
        }
    }
    /// fields of one direction
    pub fn marks() {
        const PLACES: [usize; 13] = [0, 3, 5, 6, 7, 10, 12, 13, 14, 15, 16, 18, 19];
        let i = PLACES[choose(PLACES.len() as u8)];
        let set = choose(5);
        unsafe {
            KIND = choose(6);
            SER = cflag();
        }
        let in_ser = unsafe { SER };
        let f: fn(usize) -> Option<Place> = [ser::<Dy>, de::<Dy>, ser2::<Dy>, de2::<Dy>, taken::<Dy>][set];
        let (Some(p), Some(base)) = (f(i), none::<Dy>(i)) else { fail("no such position") };
        let (with, without) = ((p.make)(), (base.make)());
        explain!("{} set {set}, for serializing: {in_ser}\n{with}\nwithout: {without}", p.name);
        observe(with.to_string().as_bytes());
        // (who skips it when reading only writes it)
        let mark = ["writeOnly", "readOnly", "writeOnly", "readOnly", ""][set];
        let there = set == 4 || in_ser == (mark == "readOnly");
        let n = (set < 4 && there) as usize;
        check(count(&with, "writeOnly") == if mark == "writeOnly" { n } else { 0 }, "another number of write-only schemas");
        check(count(&with, "readOnly") == if mark == "readOnly" { n } else { 0 }, "another number of read-only schemas");
        if there {
            let Some(at) = with.pointer(p.at) else { fail("the field is missing") };
            check(set == 4 || at.get(mark) == Some(&Value::Bool(true)), "the field is not marked");
            let own = ["readOnly", "writeOnly", "description", "x-a", "default", "required"];
            check(strip(&with, &own) == strip(&without, &own), "the mark changes something else");
            check(with.pointer(p.at.strip_suffix("/properties/f").unwrap_or("?")).and_then(|s| s.get("required")) == without.pointer(p.at.strip_suffix("/properties/f").unwrap_or("?")).and_then(|s| s.get("required")), "the mark changes what is required");
            reach(1);
        } else {
            check(!p.at.ends_with("/f") || with.pointer(p.at).is_none(), "the field is there");
            reach(2);
        }
    }

    variants!(v_none, []);
    variants!(v_title, [#[deprecated] #[schemars(title = "T", extend("x-a" = 1))]]);
    variants!(v_doc, [#[doc = " # Head"] #[doc = ""] #[doc = " text"]]);
    variants!(v_desc, [#[schemars(description = "d")]]);
    #[derive(JsonSchema)]
    #[serde(untagged, rename_all = "UPPERCASE")]
    #[allow(dead_code)]
    enum Names<T> {
        Aa(T),
        #[serde(rename(serialize = "w", deserialize = "r"))]
        Bb {
            f: T,
        },
        #[schemars(title = "own")]
        Cc(u8),
        /// # doc
        Dd,
        #[schemars(with = "T")]
        Ff(u8),
        #[schemars(schema_with = "some_schema")]
        Gg,
        #[serde(skip)]
        Hh,
        #[serde(skip_serializing)]
        Ee(bool, T),
    }
    #[derive(JsonSchema)]
    #[allow(dead_code)]
    struct Inside<T> {
        list: Vec<Names<T>>,
        #[serde(flatten)]
        flat: Option<Flat<T>>,
    }
    #[derive(JsonSchema)]
    #[schemars(untagged)]
    #[allow(dead_code)]
    enum Flat<T> {
        One { f: T },
        Two { g: T },
    }
    fn names(at: &str) -> Vec<(String, &'static str)> {
        let ser = unsafe { SER };
        let mut n = vec!["AA", if ser { "w" } else { "r" }, "own", "doc", "FF", "GG"];
        if !ser {
            n.push("EE");
        }
        n.into_iter().enumerate().map(|(i, n)| (format!("{at}/anyOf/{i}"), n)).collect()
    }
    /// titles of untagged variants
    pub fn titles() {
        unsafe {
            KIND = choose(6);
            SER = cflag();
        }
        let set = choose(4);
        let i = choose(22);
        let a = ["A", "T", "Head", "A"][set];
        let make = |titles: bool| {
            unsafe { TITLES = titles };
            match i {
                20 => schema_of::<Names<Dy>>(),
                21 => schema_of::<Inside<Dy>>(),
                _ => {
                    let f: fn(usize) -> Option<Place> = [v_none::<Dy>, v_title::<Dy>, v_doc::<Dy>, v_desc::<Dy>][set];
                    match f(i) {
                        Some(p) => (p.make)(),
                        None => fail("no such position"),
                    }
                }
            }
        };
        let (with, without) = (make(true), make(false));
        explain!("position {i} set {set}\n{with}\nwithout titles: {without}");
        observe(with.to_string().as_bytes());
        let one = |n: usize, t: &'static str| (format!("/anyOf/{n}"), t);
        let want = match i {
            12 => vec![one(0, "B"), one(1, a)],
            13..=15 => vec![one(0, a), one(1, "B")],
            16 | 17 => vec![one(1, a)],
            20 => names(""),
            21 => {
                let mut w = names("/$defs/Names_for_Dy");
                let at = with.get("$defs").and_then(Value::as_object).and_then(|d| d.keys().find(|k| k.starts_with("Names"))).cloned().unwrap_or_default();
                for (p, _) in &mut w {
                    *p = p.replace("Names_for_Dy", &at);
                }
                w.extend([one(0, "One"), one(1, "Two")]);
                w
            }
            _ => vec![],
        };
        // the titles, and nothing else, differ
        let mut expected = without.clone();
        for (at, t) in &want {
            let Some(node) = expected.pointer_mut(at) else { fail("the variant is missing") };
            match node {
                Value::Object(m) => {
                    m.insert("title".into(), json!(t));
                }
                Value::Bool(true) => *node = json!({ "title": t }),
                _ => *node = json!({ "not": {}, "title": t }),
            }
        }
        explain!("expected {expected}");
        check(with == expected, "other titles than those of the variants without a tag");
        reach(if want.is_empty() { 2 } else { 1 });
    }
}
#[cfg(feature = "c32")]
pub use marks::{marks, titles};
