//! C26: generated schemas are well formed under the meta-schema of their dialect.
use crate::der::Ty;
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::types::*;
use crate::val::Dialect;
use crate::wf;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::collections::*;

const THOROUGH: bool = cfg!(feature = "thorough");
static mut S: Vec<Value> = Vec::new();
fn slot(n: usize) -> Value {
    unsafe { (&*std::ptr::addr_of!(S))[n].clone() }
}
/// a type with the nth schema, inline or referenced
pub struct F<const N: usize, const INLINE: bool>;
impl<const N: usize, const INLINE: bool> JsonSchema for F<N, INLINE> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(format!("F{N}"))
    }
    fn inline_schema() -> bool {
        INLINE
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        Schema::try_from(slot(N)).unwrap()
    }
}
fn settings(form: usize) -> (SchemaSettings, Dialect) {
    match form {
        0 => (SchemaSettings::draft2020_12(), Dialect::D2020),
        1 => (SchemaSettings::draft07(), Dialect::D7),
        2 => (SchemaSettings::draft2019_09(), Dialect::D2019),
        _ => (SchemaSettings::openapi3(), Dialect::Oas3),
    }
}
/// the schema and its definitions, transformed one by one
fn parts<T: JsonSchema>(s: SchemaSettings) -> Value {
    let mut g = s.into_generator();
    let mut schema = g.subschema_for::<T>();
    let defs = g.take_definitions(true);
    for t in g.transforms_mut() {
        t.transform(&mut schema);
    }
    let mut v = schema.to_value();
    if let Value::Object(m) = &mut v {
        m.insert("components".into(), json!({ "schemas": defs }));
    }
    v
}
fn root<T: JsonSchema>(s: SchemaSettings) -> Value {
    s.into_generator().into_root_schema_for::<T>().to_value()
}
fn judge(s: &Value, d: Dialect) {
    unsafe {
        wf::BAD = "";
        wf::TYPE_LIST = false;
        wf::NULL_TYPE = false;
        wf::ITEM_LIST = false;
    }
    let mut bare = s.clone();
    let mut ok = true;
    if let Value::Object(m) = &mut bare {
        m.remove("$schema");
        if let Some(c) = m.remove("components") {
            ok = c["schemas"].as_object().is_some_and(|o| o.values().all(|x| wf::wf(x, d)));
        }
    }
    ok = ok && wf::wf(&bare, d);
    explain!("{}: {s}", unsafe { wf::BAD });
    observe(&[ok as u8]);
    check(ok, "a schema is not well formed");
    check(!unsafe { wf::NULL_TYPE }, "an OpenAPI 3.0 schema has the type null");
    reach(1);
}

// ------------------------------------------------------------------------------ derived types
#[derive(JsonSchema)]
enum NoVariants {}
#[derive(JsonSchema)]
#[allow(dead_code)]
enum AllSkipped {
    #[serde(skip)]
    A,
    #[serde(skip)]
    B(u8),
}
#[derive(JsonSchema)]
#[serde(tag = "t")]
enum NoVariantsTagged {}
#[derive(JsonSchema)]
#[serde(untagged)]
enum NoVariantsUntagged {}
#[derive(JsonSchema)]
#[serde(tag = "t", content = "c")]
#[allow(dead_code)]
enum AllSkippedAdjacent {
    #[serde(skip)]
    A,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
enum Empties {
    A(),
    B {},
    C,
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[allow(dead_code)]
enum EmptiesUntagged {
    A(),
    B {},
    C,
}
#[derive(JsonSchema)]
#[serde(tag = "t", content = "c")]
#[allow(dead_code)]
enum EmptiesAdjacent {
    A(),
    B {},
    C,
}
#[derive(JsonSchema)]
#[serde(tag = "t", deny_unknown_fields)]
#[allow(dead_code)]
enum EmptiesInternal {
    B {},
    C,
}
#[derive(JsonSchema)]
struct Nothing {}
#[derive(JsonSchema)]
struct NoFields();
#[derive(JsonSchema)]
#[allow(dead_code)]
struct SkippedField(#[serde(skip)] u8);
#[derive(JsonSchema)]
#[allow(dead_code)]
struct SkippedFields(#[serde(skip)] u8, #[serde(skip)] u8);
#[derive(JsonSchema)]
#[allow(dead_code)]
struct DefaultedFields(#[serde(default)] u8, #[serde(default)] u8);
#[derive(JsonSchema)]
#[allow(dead_code)]
enum Mixed {
    A,
    #[serde(skip_serializing)]
    B,
    #[serde(skip_deserializing)]
    C,
    #[serde(rename = "A")]
    #[allow(unreachable_patterns)]
    D,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
enum OneWay {
    #[serde(skip_serializing)]
    B,
    #[serde(skip_serializing)]
    C(u8),
}
#[derive(JsonSchema)]
#[schemars(title = "t", description = "d", example = 1, example = &"x", extend("x-a" = [1], "type" = "object", "enum" = [1, "x"]))]
#[allow(dead_code)]
struct Annotated {
    /// doc
    #[deprecated]
    #[schemars(default, example = None::<u8>, extend("minimum" = 3), range(max = 7))]
    a: Option<u8>,
    #[schemars(title = "")]
    #[schemars(length(equal = 2), inner(length(min = 1), regex(pattern = "a")), required)]
    b: Option<Vec<String>>,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Repeated {
    a: u8,
    #[serde(flatten)]
    f: RepeatedInner,
    #[serde(flatten)]
    g: RepeatedInner,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct RepeatedInner {
    a: u8,
    b: u8,
}
#[derive(JsonSchema)]
#[serde(tag = "a")]
#[allow(dead_code)]
enum RepeatedTag {
    V(RepeatedInner),
    W,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
#[serde(tag = "a")]
struct RepeatedTagged {
    a: u8,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Renamed {
    #[serde(rename = "a")]
    x: u8,
    a: u8,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Recursive {
    next: Option<Box<Recursive>>,
    all: Vec<Recursive>,
    #[serde(flatten)]
    rest: BTreeMap<String, Recursive>,
}
struct Shape {
    root: fn(SchemaSettings) -> Value,
    parts: fn(SchemaSettings) -> Value,
}
macro_rules! shapes {
    ($($t:ty),* $(,)?) => { &[$(Shape { root: root::<$t>, parts: parts::<$t> }),*] };
}
const ODD: &[Shape] = shapes![
    NoVariants, AllSkipped, NoVariantsTagged, NoVariantsUntagged, AllSkippedAdjacent, Empties, EmptiesUntagged, EmptiesAdjacent, EmptiesInternal, Nothing, NoFields, SkippedField, SkippedFields, DefaultedFields, Mixed, OneWay, Annotated,
    Repeated, RepeatedTag, RepeatedTagged, Renamed, Recursive, Option<NoVariants>, Option<AllSkipped>, Option<Mixed>, Option<()>, Option<Option<()>>, [u8; 0], [Mixed; 1], (u8,), (Nothing, NoFields), Vec<Option<Mixed>>,
    BTreeMap<String, NoVariants>, BTreeMap<u8, NoFields>, BTreeMap<Mixed, Mixed>, BTreeMap<NoVariants, u8>, BTreeMap<OneWay, u8>, Result<NoVariants, Option<u8>>, std::ops::Bound<Mixed>, std::ops::Range<NoFields>,
    Option<Result<u8, String>>, Box<[Option<std::net::IpAddr>]>, Option<std::time::Duration>, Option<std::time::SystemTime>, Option<Value>, serde_json::Number, Option<serde_json::Map<String, Value>>, BTreeMap<char, ()>, BTreeMap<bool, ()>, BTreeMap<std::num::NonZeroI8, ()>,
    BTreeMap<Option<String>, ()>, BTreeMap<Result<String, bool>, ()>,
];
fn generated(root: fn(SchemaSettings) -> Value, parts: fn(SchemaSettings) -> Value) {
    let (set, d) = settings(choose(4));
    let set = if cflag() { set.for_serialize() } else { set };
    let set = if cflag() { set.with(|s| s.inline_subschemas = true) } else { set };
    // definitions of OpenAPI root schemas are not transformed (a known finding of C15)
    let s = if d == Dialect::Oas3 { parts(set) } else { root(set) };
    judge(&s, d);
    check(!unsafe { wf::TYPE_LIST }, "an OpenAPI 3.0 schema has a list of types");
    check(!unsafe { wf::ITEM_LIST }, "an OpenAPI 3.0 schema has a list of items");
}
pub fn wf_odd() {
    let t = &ODD[choose(ODD.len() as u8)];
    generated(t.root, t.parts)
}
pub fn wf_types() {
    let all = [STRUCTS, ENUMS_EXTERNAL, ENUMS_INTERNAL, ENUMS_ADJACENT, ENUMS_UNTAGGED, FLATTENED, COMBINED, CONTAINERS, DEFAULTS];
    let tys = all[choose(all.len() as u8)];
    let t = &tys[choose(tys.len() as u8)];
    generated(t.schema, t.parts)
}
pub fn wf_std() {
    let tys: &[Ty] = if cflag() { crate::bi::STD } else { crate::tp::TP };
    let t = &tys[choose(tys.len() as u8)];
    generated(t.schema, t.parts)
}

// ------------------------------------------------------------------------------ any schemas
fn few() -> Value {
    match choose(if unsafe { BRIEF } { 2 } else { 3 }) {
        0 => Value::Null,
        1 => strv(1),
        _ => json!([{}]),
    }
}
static mut BRIEF: bool = false;
static mut FLAT: bool = false;
fn sub() -> Value {
    if unsafe { BRIEF } {
        return match choose(3) {
            0 => Value::Bool(true),
            1 => json!({"type": ["string", "null"], "const": null}),
            _ => json!({"prefixItems": [{"type": "null"}], "items": false}),
        };
    }
    match choose(6) {
        0 => json!(true),
        1 => json!(false),
        2 => json!({}),
        3 => json!({"type": ["string", "null"], "const": few()}),
        4 => json!({"prefixItems": [{"type": "null"}], "items": flag()}),
        _ => json!({"type": word(&["object", "array", "null"])}),
    }
}
const KEYS: &[&str] = &[
    "type", "enum", "const", "properties", "patternProperties", "additionalProperties", "unevaluatedProperties", "required", "dependentRequired", "dependentSchemas", "propertyNames", "items", "prefixItems", "unevaluatedItems", "contains",
    "allOf", "anyOf", "oneOf", "not", "if", "then", "minLength", "pattern", "format", "minItems", "maximum", "uniqueItems", "examples", "default", "title", "$ref", "deprecated", "$comment", "x-ext",
];
fn value_of(k: &str) -> Value {
    match k {
        "type" => match choose(3) {
            0 => word(&["null", "string", "object", "array", "integer"]),
            1 => json!([word(&["null", "string", "object"])]),
            _ => json!([word(&["string", "object"]), word(&["null", "array"])]),
        },
        "enum" => match choose(3) {
            0 => json!([null]),
            1 => json!([few()]),
            _ => json!(["a", null]),
        },
        "const" | "default" | "x-ext" => few(),
        "properties" | "patternProperties" | "dependentSchemas" => json!({ "a": sub() }),
        "required" => json!([word(&["a", "t"])]),
        "dependentRequired" => json!({"a": ["b"]}),
        "prefixItems" | "allOf" | "anyOf" | "oneOf" => json!([sub()]),
        "minLength" | "minItems" => Value::from(byte(0, 255)),
        "maximum" => small_int(),
        "uniqueItems" | "deprecated" => boolv(),
        "pattern" => json!("^a"),
        "format" => word(&["uri", "date", "uint8", "int32"]),
        "examples" => json!([few()]),
        "title" | "$comment" => strv(1),
        "$ref" => json!("#"),
        _ => sub(),
    }
}
/// a well-formed 2020-12 schema with up to two keywords
fn any_schema(n: usize) -> Value {
    let mut m = Map::new();
    let mut from = 0;
    let n = choose(n as u8 + 1);
    unsafe { BRIEF = !THOROUGH && (n > 1 || FLAT) };
    for _ in 0..n {
        if from >= KEYS.len() {
            break;
        }
        let k = from + choose((KEYS.len() - from) as u8);
        m.insert(KEYS[k].to_string(), value_of(KEYS[k]));
        from = k + 1;
    }
    Value::Object(m)
}
fn some_schema(n: usize) -> Value {
    if cflag() { Value::Bool(cflag()) } else { any_schema(n) }
}
fn emit<T: JsonSchema>() {
    let (set, d) = settings(choose(4));
    let s = if d == Dialect::Oas3 { parts::<T>(set) } else { root::<T>(set) };
    judge(&s, d);
}
pub fn wf_any() {
    let s = some_schema(2);
    unsafe { S = vec![s] };
    match choose(2) {
        0 => emit::<F<0, false>>(),
        _ => emit::<Vec<F<0, true>>>(),
    }
}
pub fn wf_wrapped() {
    let s = some_schema(1);
    unsafe { S = vec![s] };
    type T = F<0, true>;
    type R = F<0, false>;
    match choose(16) {
        0 => emit::<Option<T>>(),
        1 => emit::<Option<R>>(),
        2 => emit::<Option<Option<T>>>(),
        3 => emit::<(T, R)>(),
        4 => emit::<[T; 2]>(),
        5 => emit::<BTreeMap<T, R>>(),
        6 => emit::<BTreeMap<R, T>>(),
        7 => emit::<Result<T, R>>(),
        8 => emit::<Field<T>>(),
        9 => emit::<Field<R>>(),
        10 => emit::<External<T>>(),
        11 => emit::<Internal<T>>(),
        12 => emit::<Internal<R>>(),
        13 => emit::<Adjacent<T>>(),
        14 => emit::<Untagged<R>>(),
        _ => emit::<Tuple<T>>(),
    }
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Field<T> {
    /// doc
    #[schemars(title = "t", extend("x" = 1))]
    a: T,
    #[deprecated]
    #[schemars(length(min = 1), range(max = 3), contains("x"), inner(length(max = 3)))]
    b: T,
    #[schemars(required)]
    c: Option<T>,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Tuple<T>(T, #[schemars(length(min = 1), description = "d")] T);
#[derive(JsonSchema)]
#[allow(dead_code)]
enum External<T> {
    A(T),
    B,
    /// doc
    C(T, T),
    D { t: T },
}
#[derive(JsonSchema)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Internal<T> {
    A(T),
    B,
    /// doc
    D { a: T },
}
#[derive(JsonSchema)]
#[serde(tag = "t", content = "c")]
#[allow(dead_code)]
enum Adjacent<T> {
    A(T),
    B,
    /// doc
    C(T, T),
    D { t: T },
}
#[derive(JsonSchema)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged<T> {
    A(T),
    B,
    /// doc
    C(T, T),
    D { t: T },
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Flat<T> {
    a: u8,
    #[serde(flatten)]
    t: T,
}
#[derive(JsonSchema)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct FlatTwo<T, U> {
    #[serde(flatten)]
    t: T,
    #[serde(flatten)]
    u: Option<U>,
}
pub fn wf_flatten() {
    let n = 1;
    unsafe { FLAT = true };
    let (a, b) = (some_schema(n), some_schema(1));
    unsafe { S = vec![a, b] };
    match choose(2) {
        0 => emit::<Flat<F<0, true>>>(),
        _ => emit::<FlatTwo<F<0, true>, F<1, true>>>(),
    }
}
