//! C18: flattening. The flattened types have arbitrary (symbolic) schemas; the struct around them is derived.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{Dialect, V};
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;

const THOROUGH: bool = cfg!(feature = "thorough");
static mut S: Vec<Value> = Vec::new();
fn slot(n: usize) -> Value {
    unsafe { (&*std::ptr::addr_of!(S))[n].clone() }
}
fn set(v: Vec<Value>) {
    unsafe { *std::ptr::addr_of_mut!(S) = v }
}
/// a type with the nth schema
pub struct F<const N: usize>;
impl<const N: usize> JsonSchema for F<N> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(format!("F{N}"))
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        Schema::try_from(slot(N)).unwrap()
    }
}
/// a type that refers to the type with the nth schema
pub struct R<const N: usize>;
impl<const N: usize> JsonSchema for R<N> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(format!("R{N}"))
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        g.subschema_for::<F<N>>()
    }
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct First<A> {
    own: bool,
    #[schemars(flatten)]
    a: A,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Last<A> {
    #[schemars(flatten)]
    a: A,
    own: bool,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[allow(dead_code)]
struct Deny<A> {
    own: bool,
    #[schemars(flatten)]
    a: A,
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Two<A, B> {
    own: bool,
    #[schemars(flatten)]
    a: A,
    #[schemars(flatten)]
    b: B,
}
#[derive(JsonSchema)]
#[schemars(deny_unknown_fields)]
#[allow(dead_code)]
struct DenyTwo<A, B> {
    #[schemars(flatten)]
    a: A,
    own: bool,
    #[schemars(flatten)]
    b: B,
}
#[derive(JsonSchema)]
#[schemars(tag = "t")]
#[allow(dead_code)]
enum Variant<A> {
    V {
        own: bool,
        #[schemars(flatten)]
        a: A,
    },
    N(A),
}
fn root<T: JsonSchema>() -> Value {
    SchemaSettings::default().into_generator().into_root_schema_for::<T>().to_value()
}

/// A schema of a type that serializes as an object with the keys p and q, restricting nothing else
/// unless `closed`; `kind` says in which way it is written.
pub const KINDS: u8 = 14;
pub const MAP: usize = 13;
fn shape(kind: usize, p: &str, q: &str, closed: bool) -> Value {
    let prop = |k: &str, s: Value, req: bool| {
        let mut m = Map::new();
        m.insert("type".into(), json!("object"));
        m.insert("properties".into(), json!({ k: s }));
        if req {
            m.insert("required".into(), json!([k]));
        }
        if closed {
            m.insert("additionalProperties".into(), json!(false));
        }
        Value::Object(m)
    };
    let b = || json!({"type": "boolean"});
    let i = || json!({"type": "integer"});
    match kind {
        0 => json!(true),
        1 => json!({}),
        2 => {
            let mut v = prop(p, b(), cflag());
            v["properties"][q] = i();
            v
        }
        3 => json!({"type": "object", "patternProperties": {format!("^{p}$"): b()}, "minProperties": 1}),
        4 => json!({"oneOf": [prop(p, b(), true), prop(q, i(), true)], "title": "E"}),
        5 => json!({"anyOf": [prop(p, b(), false), prop(q, i(), true)]}),
        6 => json!({"allOf": [{"properties": {p: b()}}, {"properties": {q: i()}, "required": [q]}]}),
        7 => json!({"properties": {p: b()}, "not": {"required": [q]}}),
        8 => json!({"properties": {p: b()}, "if": {"properties": {p: {"const": true}}, "required": [p]}, "then": {"properties": {q: i()}, "required": [q]}}),
        9 => json!({"properties": {p: true, q: true}, "if": {"required": [p]}, "else": {"properties": {q: i()}, "required": [q]}}),
        10 => json!({"properties": {p: b(), q: i()}, "dependentRequired": {p: [q]}, "dependentSchemas": {q: {"properties": {p: {"const": true}}}}}),
        11 => {
            let mut v = prop(p, b(), true);
            if closed {
                v.as_object_mut().unwrap().remove("additionalProperties");
            }
            v["properties"][q] = true.into();
            v["unevaluatedProperties"] = json!(!closed);
            v
        }
        12 => {
            let mut v = json!({"properties": {p: true, q: true}, "anyOf": [prop(p, b(), true), {"allOf": [prop(q, i(), true)], "title": "B"}]});
            if closed {
                v["unevaluatedProperties"] = json!(false);
            }
            v
        }
        // a map
        _ => json!({"type": "object", "additionalProperties": i()}),
    }
}
/// The schema without the restrictions on unknown keys: those are up to the outer struct.
fn open(s: &Value) -> Value {
    let Value::Object(m) = s else { return s.clone() };
    let mut r = Map::new();
    for (k, v) in m {
        match k.as_str() {
            "additionalProperties" | "unevaluatedProperties" if *v == false => {}
            "if" | "then" | "else" => {
                r.insert(k.clone(), open(v));
            }
            "allOf" | "anyOf" | "oneOf" => {
                r.insert(k.clone(), v.as_array().unwrap().iter().map(open).collect());
            }
            _ => {
                r.insert(k.clone(), v.clone());
            }
        }
    }
    Value::Object(r)
}
/// What a struct with these flattened schemas means: all of them at once; a map takes the keys that nobody else does.
fn all(mut parts: Vec<Value>, flattened: &[&Value]) -> Value {
    let mut rest = None;
    for s in flattened {
        let mut v = open(s);
        if v.get("additionalProperties").is_some_and(Value::is_object) {
            rest = v.as_object_mut().and_then(|m| m.remove("additionalProperties"));
        }
        parts.push(v);
    }
    match rest {
        Some(r) => json!({"allOf": parts, "unevaluatedProperties": r}),
        None => json!({ "allOf": parts }),
    }
}
fn catch_all(s: &Value) -> bool {
    *s == true || s.get("additionalProperties").is_some_and(Value::is_object) || s.get("unevaluatedProperties") == Some(&json!(true))
}
/// an object with any of the keys, each with a boolean or a number, and any one-letter key
fn object_of(keys: &[&str], extra: bool) -> Value {
    let mut m = Map::new();
    if extra && cflag() {
        m.insert(ascii_n(1, 0x61, 0x7a), if cflag() { boolv() } else { json!(byte(0, 9)) });
    }
    for k in keys {
        match choose(3) {
            0 => {}
            1 => {
                m.insert(k.to_string(), boolv());
            }
            _ => {
                m.insert(k.to_string(), json!(byte(0, 9)));
            }
        }
    }
    Value::Object(m)
}
fn compare(s: &Value, want: &Value, j: &Value) {
    let v = V::new(s, Dialect::D2020);
    let got = v.ok(j);
    let w = V::new(want, Dialect::D2020).ok(j);
    explain!("{s}\nexpected to mean {want}\ninstance {j}: accepted {got}, expected {w}");
    observe_value(s);
    observe(&[got as u8]);
    check(!v.dangling.get() && !v.malformed.get(), "dangling reference or malformed keyword");
    check(got || !w, "the schema of a struct rejects an object that all of its flattened fields accept");
    check(!got || w, "the schema of a struct accepts an object that one of its flattened fields rejects");
    reach(if w { 1 } else { 2 });
}
fn own() -> Value {
    json!({"type": "object", "properties": {"own": {"type": "boolean"}}, "required": ["own"]})
}

/// one flattened field
#[cfg(feature = "c18")]
pub fn flat_one() {
    let kind = choose(KINDS);
    let a = shape(kind, "a", "b", cflag());
    set(vec![a.clone()]);
    let by_ref = cflag();
    let s = match (choose(3), by_ref) {
        (0, false) => root::<First<F<0>>>(),
        (1, false) => root::<Last<F<0>>>(),
        (_, false) => root::<Box<First<Box<F<0>>>>>(),
        (0, true) => root::<First<R<0>>>(),
        (1, true) => root::<Last<R<0>>>(),
        (_, true) => root::<First<First2<R<0>>>>(),
    };
    let nested = s["properties"].get("own2").is_some();
    // behind a reference, the restrictions on unknown keys stay
    assume(!by_ref || open(&a) == a && kind != MAP);
    let mut parts = vec![own()];
    if nested {
        parts.push(json!({"properties": {"own2": {"type": "boolean"}}, "required": ["own2"]}));
    }
    let j = object_of(if nested { &["own", "a", "b", "own2"] } else { &["own", "a", "b"] }, true);
    compare(&s, &all(parts, &[&a]), &j);
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct First2<A> {
    own2: bool,
    #[schemars(flatten)]
    a: A,
}

/// two flattened fields
#[cfg(feature = "c18")]
pub fn flat_two() {
    let (ka, kb) = (choose(KINDS), choose(KINDS));
    // two maps: each key would belong to both
    let (a, b) = (shape(ka, "a", "b", false), shape(kb, "c", "d", THOROUGH && cflag()));
    assume(!(catch_all(&a) && catch_all(&b)));
    set(vec![a.clone(), b.clone()]);
    let s = match if THOROUGH { choose(2) } else { 0 } {
        0 => root::<Two<F<0>, F<1>>>(),
        _ => root::<First<First3<F<0>, F<1>>>>(),
    };
    let keys = |k: usize, n: &'static [&'static str]| if k < 2 { &n[..0] } else { n };
    let mut names = vec!["own"];
    names.extend(keys(ka, &["a", "b"]));
    names.extend(keys(kb, &["c", "d"]));
    if s["properties"].get("own3").is_some() {
        names.push("own3");
    }
    let j = object_of(&names[1..], false);
    let mut j = j;
    j["own"] = json!(true);
    if names.contains(&"own3") {
        j["own3"] = json!(true);
    }
    let mut parts = vec![own()];
    if names.contains(&"own3") {
        parts.push(json!({"properties": {"own3": {"type": "boolean"}}, "required": ["own3"]}));
    }
    compare(&s, &all(parts, &[&a, &b]), &j);
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct First3<A, B> {
    #[schemars(flatten)]
    b: B,
    own3: bool,
    #[schemars(flatten)]
    a: A,
}

/// deny_unknown_fields around flattened fields: every key must belong to some field
#[cfg(feature = "c18")]
pub fn flat_deny() {
    let two = cflag();
    let kinds = |k: u8| 2 + choose(k - 3);
    let a = shape(kinds(KINDS), "a", "b", cflag());
    let b = if two { shape(kinds(KINDS), "c", "d", false) } else { json!({}) };
    assume(!catch_all(&a) && !catch_all(&b));
    set(vec![a.clone(), b.clone()]);
    let s = if two { root::<DenyTwo<F<0>, F<1>>>() } else { root::<Deny<F<0>>>() };
    let mut j = object_of(if two { &["a", "b", "c", "d"] } else { &["a", "b"] }, !two);
    j["own"] = json!(true);
    let mut want = all(vec![own()], &if two { vec![&a, &b] } else { vec![&a] });
    want["unevaluatedProperties"] = json!(false);
    compare(&s, &want, &j);
}

/// flattening inside the variants of an enum
#[cfg(feature = "c18")]
pub fn flat_variant() {
    let a = shape(choose(KINDS), "a", "b", cflag());
    assume(a.is_object());
    set(vec![a.clone()]);
    let s = root::<Variant<F<0>>>();
    let mut j = object_of(&["own", "a", "b"], true);
    let tag = choose(4);
    if tag < 3 {
        j["t"] = json!(["V", "N", "X"][tag]);
    }
    let t = |v: &str| json!({"type": "object", "properties": {"t": {"const": v}}, "required": ["t"]});
    let mut n = all(vec![t("N")], &[&a]);
    // documented: only a restriction at the top level of the inner schema is kept
    if ["additionalProperties", "unevaluatedProperties"].iter().any(|k| a.get(*k) == Some(&json!(false))) {
        n["unevaluatedProperties"] = json!(false);
    }
    let want = json!({"oneOf": [all(vec![t("V"), own()], &[&a]), n]});
    compare(&s, &want, &j);
}

/// a flattened map, after it a schema that allows everything, and one more field before, between or after them
#[cfg(feature = "c18")]
pub fn flat_rest() {
    let a = shape(2 + choose(KINDS - 3), "a", "b", false);
    assume(!catch_all(&a));
    let (map, any) = (shape(MAP, "", "", false), if cflag() { json!(true) } else { json!({}) });
    let parts = match choose(3) {
        0 => vec![a, map, any],
        1 => vec![map, a, any],
        _ => vec![map, any, a],
    };
    set(parts.clone());
    let s = root::<Three<F<0>, F<1>, F<2>>>();
    let mut j = object_of(&["a", "b"], true);
    j["own"] = json!(true);
    compare(&s, &all(vec![own()], &parts.iter().collect::<Vec<_>>()), &j);
}

#[derive(JsonSchema)]
#[allow(dead_code)]
struct Three<A, B, C> {
    #[schemars(flatten)]
    a: A,
    #[schemars(flatten)]
    b: B,
    own: bool,
    #[schemars(flatten)]
    c: C,
}
/// three flattened fields, any of them a reference
#[cfg(feature = "c18")]
pub fn flat_three() {
    const NAMES: [(&str, &str); 3] = [("a", "b"), ("c", "d"), ("e", "f")];
    const SHAPES: [usize; 7] = [2, 4, 6, 8, 5, 7, 9];
    let mut s = vec![];
    let mut refs = 0;
    for (i, (p, q)) in NAMES.iter().enumerate() {
        s.push(shape(SHAPES[choose(if THOROUGH { 7 } else { 4 })], p, q, false));
        if cflag() {
            refs |= 1 << i;
        }
    }
    set(s.clone());
    let schema = match refs {
        0 => root::<Three<F<0>, F<1>, F<2>>>(),
        1 => root::<Three<R<0>, F<1>, F<2>>>(),
        2 => root::<Three<F<0>, R<1>, F<2>>>(),
        3 => root::<Three<R<0>, R<1>, F<2>>>(),
        4 => root::<Three<F<0>, F<1>, R<2>>>(),
        5 => root::<Three<R<0>, F<1>, R<2>>>(),
        6 => root::<Three<F<0>, R<1>, R<2>>>(),
        _ => root::<Three<R<0>, R<1>, R<2>>>(),
    };
    // one of the fields varies, the others are as they should be
    let vary = choose(3);
    let mut j = object_of(&[NAMES[vary].0, NAMES[vary].1], false);
    j["own"] = json!(true);
    for (i, (p, q)) in NAMES.iter().enumerate() {
        if i != vary {
            let w = V::new(&s[i], Dialect::D2020);
            for o in [json!({ *p: true }), json!({ *p: true, *q: 1 }), json!({ *q: 1 })] {
                if w.ok(&o) {
                    o.as_object().unwrap().iter().for_each(|(k, v)| j[k.as_str()] = v.clone());
                    break;
                }
            }
        }
    }
    compare(&schema, &all(vec![own()], &s.iter().collect::<Vec<_>>()), &j);
}
