//! C07 traversal of subschemas; C08-C14 the built-in transforms.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{Dialect, V};
use schemars::transform::*;
use schemars::Schema;
use serde_json::{json, Map, Value};

const THOROUGH: bool = cfg!(feature = "thorough");

// ------------------------------------------------------------------- where subschemas are
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    One,
    Many,
    OneOrMany,
    Dict,
    No,
}
/// from the JSON Schema specifications (draft 7 to 2020-12)
fn kind(k: &[u8]) -> Kind {
    for w in ["not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems", "unevaluatedProperties", "unevaluatedItems", "contentSchema"] {
        if k == w.as_bytes() {
            return Kind::One;
        }
    }
    for w in ["allOf", "anyOf", "oneOf", "prefixItems"] {
        if k == w.as_bytes() {
            return Kind::Many;
        }
    }
    for w in ["properties", "patternProperties", "$defs", "definitions", "dependentSchemas", "dependencies"] {
        if k == w.as_bytes() {
            return Kind::Dict;
        }
    }
    if k == b"items" {
        return Kind::OneOrMany;
    }
    Kind::No
}
fn is_schema(v: &Value) -> bool {
    v.is_object() || v.is_boolean()
}
fn subs(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    if let Value::Object(m) = v {
        for (k, x) in m.iter_mut() {
            match (kind(k.as_bytes()), x) {
                (Kind::Many | Kind::OneOrMany, Value::Array(a)) => a.iter_mut().filter(|x| is_schema(x)).for_each(&mut *f),
                (Kind::One | Kind::OneOrMany, x) if is_schema(x) => f(x),
                (Kind::Dict, Value::Object(d)) => d.values_mut().filter(|x| is_schema(x)).for_each(&mut *f),
                _ => {}
            }
        }
    }
}
fn pre(v: &mut Value, f: &dyn Fn(&mut Value)) {
    f(v);
    subs(v, &mut |x| pre(x, f));
}
fn post(v: &mut Value, f: &dyn Fn(&mut Value)) {
    subs(v, &mut |x| post(x, f));
    f(v);
}
/// every place a value can sit in: (keyword, 0 = directly, 1 = in an array, 2 = in an object)
const POS: &[(&str, u8)] = &[
    ("not", 0),
    ("if", 0),
    ("then", 0),
    ("else", 0),
    ("contains", 0),
    ("additionalProperties", 0),
    ("propertyNames", 0),
    ("additionalItems", 0),
    ("unevaluatedProperties", 0),
    ("unevaluatedItems", 0),
    ("contentSchema", 0),
    ("items", 0),
    ("items", 1),
    ("allOf", 1),
    ("anyOf", 1),
    ("oneOf", 1),
    ("prefixItems", 1),
    ("properties", 2),
    ("patternProperties", 2),
    ("$defs", 2),
    ("definitions", 2),
    ("dependentSchemas", 2),
    ("dependencies", 2),
    // not subschemas
    ("properties", 0),
    ("$defs", 0),
    ("const", 0),
    ("default", 0),
    ("enum", 1),
    ("examples", 1),
    ("example", 0),
    ("x-ext", 0),
    ("allOf", 0),
    ("not", 1),
    ("not", 2),
    ("properties", 1),
    ("items", 2),
    ("Not", 0),
    ("required", 1),
    ("dependentRequired", 2),
];
const NPOS: u8 = POS.len() as u8;
fn wrap(inner: Value, p: usize) -> Value {
    let (k, s) = POS[p];
    let v = match s {
        0 => inner,
        1 => json!([{"type": "string"}, inner, 5]),
        _ => json!({"p": inner, "q": {"type": "string"}, "r": ["p"]}),
    };
    let mut m = Map::new();
    m.insert(k.to_string(), v);
    Value::Object(m)
}
/// the value at the root, or in any position, or (thorough) in any position of any position
fn carried(inner: Value) -> Value {
    match choose(if THOROUGH { 3 } else { 2 }) {
        0 => inner,
        1 => wrap(inner, choose(NPOS)),
        _ => {
            let i = wrap(inner, choose(NPOS));
            wrap(i, choose(NPOS))
        }
    }
}
fn schema(v: Value) -> Schema {
    match Schema::try_from(v) {
        Ok(s) => s,
        Err(_) => fail("Schema::try_from rejects an object or boolean"),
    }
}
fn agree(t: &mut dyn Transform, doc: Value, model: &dyn Fn(&mut Value)) {
    assume(is_schema(&doc));
    let mut want = doc.clone();
    model(&mut want);
    let mut s = schema(doc.clone());
    t.transform(&mut s);
    explain!("before {doc}\nafter  {}\nwanted {want}", s.as_value());
    observe_value(s.as_value());
    check(*s.as_value() == want, "the transformed schema is not the documented one");
    reach(1);
    if want != doc {
        reach(2);
    }
}
fn same_meaning(before: &Value, d0: Dialect, after: &Value, d1: Dialect, inst: &Value) -> bool {
    let (v0, v1) = (V::new(before, d0), V::new(after, d1));
    let (a, b) = (v0.ok(inst), v1.ok(inst));
    explain!("before {before}\nafter {after}\ninstance {inst}\nbefore accepts {a}, after accepts {b}");
    check(!v1.dangling.get(), "dangling reference after the transform");
    check(!v1.malformed.get(), "malformed schema after the transform");
    check(a == b, "the transformed schema accepts different values");
    a
}

/// one of the words with one byte replaced by any printable character
fn near(words: &[&str]) -> String {
    let mut f = words[choose(words.len() as u8)].as_bytes().to_vec();
    let p = choose(f.len() as u8 + 1);
    if p < f.len() {
        f[p] = byte(0x20, 0x7e);
    } else {
        f.push(byte(0x20, 0x7e));
    }
    unsafe { String::from_utf8_unchecked(f) }
}
/// keywords that are almost the one a transform is about must be left alone
fn near_doc(words: &[&str], v: Value) -> Value {
    let mut m = Map::new();
    m.insert("title".into(), json!("t"));
    m.insert(near(words), v);
    m.insert("minItems".into(), json!(1));
    Value::Object(m)
}

// ------------------------------------------------------------------------------------------ C07
#[cfg(feature = "c07")]
const WORDS: &[&str] = &[
    "not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems", "unevaluatedProperties", "unevaluatedItems", "contentSchema", "items", "allOf", "anyOf", "oneOf", "prefixItems",
    "properties", "patternProperties", "$defs", "definitions", "dependentSchemas", "dependencies", "const", "default", "enum", "examples", "required", "type", "title", "$ref", "format",
];
#[cfg(feature = "c07")]
fn mark(s: &mut Value) {
    match s {
        Value::Object(m) => {
            let n = m.get("n").and_then(|n| n.as_u64()).unwrap_or(0);
            m.insert("n".into(), (n + 1).into());
        }
        Value::Bool(b) => *s = json!({"n": 1, "was": *b}),
        _ => {}
    }
}
#[cfg(feature = "c07")]
fn mark_schema(s: &mut Schema) {
    match s.as_bool() {
        Some(b) => {
            *s = schema(json!({"n": 1, "was": b}));
        }
        None => {
            let n = s.get("n").and_then(|n| n.as_u64()).unwrap_or(0);
            s.insert("n".into(), (n + 1).into());
        }
    }
}
#[cfg(feature = "c07")]
fn shape(n: u8) -> Value {
    let deep = || json!({"not": {}, "anyOf": [{}], "properties": {"a": {}}});
    match choose(n) {
        0 => deep(),
        1 => Value::Bool(flag()),
        2 => json!([deep(), true, 5, [deep()], "x"]),
        3 => json!({"a": deep(), "b": false, "c": [deep()], "d": "x", "not": {"items": {}}}),
        4 => json!([]),
        5 => json!(null),
        _ => json!("not"),
    }
}
/// one keyword, possibly with one byte changed, holding any shape of value
#[cfg(feature = "c07")]
pub fn visit_word() {
    let mut k = WORDS[choose(WORDS.len() as u8)].as_bytes().to_vec();
    let n = k.len() as u8;
    let p = choose(n + 2);
    if p < n as usize {
        k[p] = byte(0x20, 0x7e);
    } else if p == n as usize {
        k.push(byte(0x20, 0x7e));
    }
    let k = unsafe { String::from_utf8_unchecked(k) };
    let v = shape(if THOROUGH { 7 } else { 4 });
    let mut m = Map::new();
    m.insert(k, v);
    let doc = Value::Object(m);
    let mut want = doc.clone();
    subs(&mut want, &mut |x| mark(x));
    let mut s = schema(doc.clone());
    transform_subschemas(&mut mark_schema, &mut s);
    explain!("doc {doc} got {} want {want}", s.as_value());
    observe_value(s.as_value());
    check(*s.as_value() == want, "transform_subschemas did not visit exactly the direct subschemas");
    if want != doc {
        reach(1);
    } else {
        reach(2);
    }
}
/// arbitrary short keys are never mistaken for keywords
#[cfg(feature = "c07")]
pub fn visit_key() {
    let k = utf8(if THOROUGH { 5 } else { 4 });
    let mut m = Map::new();
    m.insert(k, if cflag() { json!({}) } else { json!([{}]) });
    let doc = Value::Object(m);
    let mut want = doc.clone();
    subs(&mut want, &mut |x| mark(x));
    let mut s = schema(doc);
    transform_subschemas(&mut mark_schema, &mut s);
    observe_value(s.as_value());
    check(*s.as_value() == want, "transform_subschemas did not visit exactly the direct subschemas");
    reach(1);
}
/// several keywords in one schema, several levels deep, with RecursiveTransform: every subschema
/// exactly once, parents first
#[cfg(feature = "c07")]
pub fn visit_recursive() {
    let leaf = || if THOROUGH && cflag() { json!({"type": "string"}) } else { json!(true) };
    let mut doc = wrap(wrap(leaf(), choose(NPOS)), choose(NPOS));
    let second = wrap(json!({"x": 1}), if THOROUGH { choose(NPOS) } else { choose(NPOS / 4) * 4 });
    for (k, v) in second.as_object().unwrap() {
        doc.as_object_mut().unwrap().entry(k.clone()).or_insert(v.clone());
    }
    let mut want = doc.clone();
    pre(&mut want, &mark);
    let mut s = schema(doc.clone());
    RecursiveTransform(mark_schema).transform(&mut s);
    explain!("doc {doc} got {} want {want}", s.as_value());
    observe_value(s.as_value());
    check(*s.as_value() == want, "RecursiveTransform did not visit every subschema exactly once");
    reach(1);
}
/// the parent is transformed before its subschemas: what the parent's transform removes is not visited
#[cfg(feature = "c07")]
pub fn visit_order() {
    let a = choose(23);
    let doc = wrap(wrap(json!({"type": "string"}), choose(23)), a);
    let f = |v: &mut Value| {
        if let Value::Object(m) = v {
            let d = m.get("depth").and_then(|d| d.as_u64()).unwrap_or(0);
            m.insert("seen".into(), d.into());
            subs(v, &mut |x| {
                if let Value::Object(m) = x {
                    m.insert("depth".into(), (d + 1).into());
                }
            });
        }
    };
    let mut want = doc.clone();
    pre(&mut want, &f);
    let mut s = schema(doc.clone());
    let mut order: Vec<usize> = Vec::new();
    RecursiveTransform(|s: &mut Schema| {
        let mut v = s.clone().to_value();
        order.push(v.get("depth").and_then(|d| d.as_u64()).unwrap_or(0) as usize);
        f(&mut v);
        *s = schema(v);
    })
    .transform(&mut s);
    explain!("doc {doc} got {} want {want}", s.as_value());
    check(*s.as_value() == want, "RecursiveTransform does not transform parents before their subschemas");
    check(order[0] == 0, "RecursiveTransform does not start with the root");
    reach(1);
}

// ------------------------------------------------------------------------------------------ C08
#[cfg(feature = "c08")]
fn bools_model(v: &mut Value, skip: bool) {
    match v {
        Value::Bool(true) => *v = json!({}),
        Value::Bool(false) => *v = json!({"not": {}}),
        Value::Object(m) => {
            let keep = match m.get("additionalProperties") {
                Some(Value::Bool(b)) if skip => Some(*b),
                _ => None,
            };
            subs(v, &mut |x| bools_model(x, skip));
            if let Some(b) = keep {
                v.as_object_mut().unwrap().insert("additionalProperties".into(), b.into());
            }
        }
        _ => {}
    }
}
#[cfg(feature = "c08")]
pub fn bools_anywhere() {
    let skip = cflag();
    let mut t = ReplaceBoolSchemas::default();
    t.skip_additional_properties = skip;
    let inner = match choose(3) {
        0 => Value::Bool(flag()),
        1 => json!({"additionalProperties": cflag(), "items": true, "properties": {"a": false}, "const": true}),
        _ => json!({"additionalProperties": {"items": cflag(), "additionalProperties": false}}),
    };
    let inner = if cflag() { wrap(inner, choose(NPOS)) } else { inner };
    let doc = carried(inner);
    agree(&mut t, doc, &|v| bools_model(v, skip));
}
/// no boolean subschema is left (other than a skipped additionalProperties) and nothing changes in meaning
#[cfg(feature = "c08")]
pub fn bools_meaning() {
    let skip = cflag();
    let mut t = ReplaceBoolSchemas::default();
    t.skip_additional_properties = skip;
    let b = || Value::Bool(flag());
    let doc = match choose(4) {
        0 => b(),
        1 => json!({"properties": {"a": b(), "b": {"not": b()}}, "additionalProperties": b()}),
        2 => json!({"prefixItems": [b(), {"anyOf": [b(), b()]}], "items": b()}),
        _ => json!({"if": b(), "then": {"additionalProperties": {"items": b()}}, "else": {"oneOf": [b(), b()]}}),
    };
    let mut s = schema(doc.clone());
    t.transform(&mut s);
    let inst = match choose(4) {
        0 => Value::Null,
        1 => array(2, &|| json!(1)),
        2 => object(&[("a", &|| json!(1)), ("b", &|| array(1, &|| json!(0))), ("c", &|| array(1, &|| json!(0)))]),
        _ => small_int(),
    };
    let ok = same_meaning(&doc, Dialect::Any, s.as_value(), Dialect::Any, &inst);
    reach(if ok { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ C09
#[cfg(feature = "c09")]
fn refsib_model(v: &mut Value) {
    if let Value::Object(m) = v {
        if m.len() > 1 && m.contains_key("$ref") {
            let r = m.remove("$ref").unwrap();
            let all = m.entry("allOf").or_insert(json!([]));
            if let Value::Array(a) = all {
                a.push(json!({"$ref": r}));
            }
        }
    }
}
#[cfg(feature = "c09")]
pub fn refsib_anywhere() {
    let mut m = Map::new();
    m.insert("$ref".into(), json!("#/$defs/x"));
    match choose(7) {
        0 => {}
        1 => {
            m.insert("title".into(), json!("t"));
        }
        2 => {
            m.insert("allOf".into(), json!([{"type": "string"}]));
        }
        3 => {
            m.insert("allOf".into(), json!([{"$ref": "#/a", "minimum": 1}, {"$ref": "#/b"}]));
            m.insert("anyOf".into(), json!([{"$ref": "#/a", "minimum": 1}, {"$ref": "#/b"}]));
        }
        4 => {
            m.insert("$defs".into(), json!({"x": {"$ref": "#/a", "minimum": 1}, "$ref": {"type": "string"}}));
        }
        5 => {
            // one arbitrary extra keyword
            m.insert(ascii_n(1 + choose(2), 0x20, 0x7e), json!(1));
        }
        _ => {
            m.insert("properties".into(), json!({"$ref": {"type": "string"}, "b": true}));
        }
    }
    if cflag() {
        m.remove("$ref");
    }
    let doc = carried(Value::Object(m));
    agree(&mut RemoveRefSiblings::default(), doc, &|v| post(v, &refsib_model));
}
/// 2020-12 meaning before == draft 7 meaning after (there, siblings of $ref are ignored)
#[cfg(feature = "c09")]
pub fn refsib_meaning() {
    let mut m = Map::new();
    m.insert("$ref".into(), json!("#/definitions/d"));
    let lim = small_int();
    for (k, v) in [
        ("minimum", lim),
        ("description", json!("d")),
        ("allOf", json!([{"type": "integer"}])),
        ("not", json!({"$ref": "#/definitions/e", "description": "x"})),
        ("anyOf", json!([{"$ref": "#/definitions/e", "maximum": 20}, {"const": 5}])),
    ] {
        if cflag() {
            m.insert(k.to_string(), v);
        }
    }
    let mut doc = match choose(3) {
        0 => Value::Object(m),
        1 => json!({"items": m}),
        _ => json!({"properties": {"a": m}, "$ref": "#/definitions/d"}),
    };
    doc.as_object_mut().unwrap().insert("definitions".into(), json!({"d": {"not": {"const": 7}}, "e": {"minimum": 10}}));
    let mut s = schema(doc.clone());
    RemoveRefSiblings::default().transform(&mut s);
    let n = || small_int();
    let inst = match choose(3) {
        0 => n(),
        1 => json!([n()]),
        _ => json!({"a": n()}),
    };
    let ok = same_meaning(&doc, Dialect::Any, s.as_value(), Dialect::D7, &inst);
    reach(if ok { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ C10
#[cfg(feature = "c10")]
fn const_model(v: &mut Value) {
    if let Value::Object(m) = v {
        if let Some(c) = m.remove("const") {
            m.insert("enum".into(), json!([c]));
        }
    }
}
#[cfg(feature = "c10")]
fn example_model(v: &mut Value) {
    if let Value::Object(m) = v {
        if let Some(e) = m.remove("examples") {
            if let Some(f) = e.as_array().and_then(|a| a.first()) {
                m.insert("example".into(), f.clone());
            }
        }
    }
}
#[cfg(feature = "c10")]
fn payload() -> Value {
    match choose(8) {
        0 => Value::Null,
        1 => Value::Bool(flag()),
        2 => small_int(),
        3 => strv(1),
        4 => json!([]),
        5 => json!({"const": 1, "examples": [2]}),
        6 => json!([{"const": 1}, {"not": {"const": 1, "examples": [2]}}]),
        _ => json!({"properties": {"const": {"const": 3}}, "not": {"const": 1}}),
    }
}
#[cfg(feature = "c10")]
pub fn const_anywhere() {
    let c = payload();
    let inner = match choose(3) {
        0 => json!({"const": c}),
        1 => json!({"const": c, "type": "string", "not": {"const": 1}, "properties": {"const": {"const": 2}, "enum": {"const": 4}}}),
        _ => json!({"enum": [c], "anyOf": [{"const": 7, "default": {"const": 8}}]}),
    };
    agree(&mut ReplaceConstValue::default(), carried(inner), &|v| post(v, &const_model));
}
#[cfg(feature = "c10")]
pub fn const_meaning() {
    let c = payload();
    let doc = match choose(3) {
        0 => json!({"const": c}),
        1 => json!({"anyOf": [{"const": c}, {"const": 5}]}),
        _ => json!({"properties": {"const": {"const": c}}, "not": {"const": 5}}),
    };
    let mut s = schema(doc.clone());
    ReplaceConstValue::default().transform(&mut s);
    let inst = if cflag() { payload() } else { json!({"const": payload()}) };
    let ok = same_meaning(&doc, Dialect::Any, s.as_value(), Dialect::Any, &inst);
    check(!s.as_value().to_string().contains("\"const\":5"), "const left behind");
    reach(if ok { 1 } else { 2 });
}
#[cfg(feature = "c10")]
pub fn example_anywhere() {
    let e = match choose(4) {
        0 => json!([]),
        1 => json!([payload()]),
        2 => json!([payload(), {"examples": [1]}, null]),
        _ => json!([{"examples": [1], "not": {"examples": [2]}}, 5]),
    };
    let inner = match choose(3) {
        0 => json!({"examples": e}),
        1 => json!({"examples": e, "example": 0, "not": {"examples": [1, 2]}}),
        _ => json!({"properties": {"examples": {"examples": e}, "example": true}}),
    };
    agree(&mut SetSingleExample::default(), carried(inner), &|v| post(v, &example_model));
}

// ------------------------------------------------------------------------------------------ C11
#[cfg(feature = "c11")]
fn prefix_model(v: &mut Value) {
    if let Value::Object(m) = v {
        if let Some(p) = m.remove("prefixItems") {
            if let Some(i) = m.remove("items") {
                m.insert("additionalItems".into(), i);
            }
            m.insert("items".into(), p);
        }
    }
}
#[cfg(feature = "c11")]
pub fn prefix_anywhere() {
    let el = |n| match n {
        0 => json!({"type": "string"}),
        1 => json!({"prefixItems": [{"prefixItems": [true]}], "items": false}),
        2 => json!(true),
        _ => json!({"items": [1], "properties": {"prefixItems": {"prefixItems": []}}}),
    };
    let mut m = Map::new();
    if cflag() {
        let n = choose(3);
        m.insert("prefixItems".into(), Value::Array((0..n).map(|_| el(choose(4))).collect()));
    }
    if cflag() {
        m.insert("items".into(), el(choose(4)));
    }
    if cflag() {
        m.insert("minItems".into(), json!(1));
    }
    agree(&mut ReplacePrefixItems::default(), carried(Value::Object(m)), &|v| post(v, &prefix_model));
}
/// 2020-12 meaning before == draft 7 meaning after
#[cfg(feature = "c11")]
pub fn prefix_meaning() {
    let el = || match choose(4) {
        0 => json!({"type": "string"}),
        1 => json!({"minimum": small_int()}),
        2 => Value::Bool(flag()),
        _ => json!({"prefixItems": [{"type": "null"}], "items": Value::Bool(flag())}),
    };
    let mut m = Map::new();
    if cflag() {
        let n = 1 + choose(2);
        m.insert("prefixItems".into(), Value::Array((0..n).map(|_| el()).collect()));
    }
    if cflag() {
        m.insert("items".into(), el());
    }
    let doc = if cflag() { Value::Object(m) } else { json!({"anyOf": [m, {"const": 9}]}) };
    let mut s = schema(doc.clone());
    ReplacePrefixItems::default().transform(&mut s);
    let x = || match choose(4) {
        0 => Value::Null,
        1 => small_int(),
        2 => json!("s"),
        _ => array(2, &|| if cflag() { Value::Null } else { json!(1) }),
    };
    let inst = array(if THOROUGH { 3 } else { 2 }, &x);
    let ok = same_meaning(&doc, Dialect::D2020, s.as_value(), Dialect::D7, &inst);
    reach(if ok { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ C12
#[cfg(feature = "c12")]
fn nullable_model(v: &mut Value, rm: bool, cn: bool) {
    if let Value::Object(m) = v {
        let ty: Vec<Value> = match m.get("type") {
            Some(Value::String(s)) => vec![json!(s)],
            Some(Value::Array(a)) => a.clone(),
            _ => vec![],
        };
        if ty.contains(&json!("null")) {
            m.insert("nullable".into(), json!(true));
            let rest: Vec<Value> = ty.iter().filter(|t| **t != json!("null")).cloned().collect();
            if rest.is_empty() && cn {
                m.insert("const".into(), Value::Null);
                if rm {
                    m.remove("type");
                }
            } else if rm {
                m.insert("type".into(), if rest.len() == 1 { rest[0].clone() } else { Value::Array(rest) });
            }
        }
    }
}
#[cfg(feature = "c12")]
fn types() -> Value {
    let one = || ["null", "string", "integer", "Null", "nul"][choose(5)];
    match choose(4) {
        0 => json!(one()),
        n => Value::Array((0..n).map(|_| json!(one())).collect()),
    }
}
#[cfg(feature = "c12")]
pub fn nullable_anywhere() {
    let (rm, cn) = (cflag(), cflag());
    let mut t = AddNullable::default();
    check(t.remove_null_type & t.add_const_null, "AddNullable's defaults changed");
    t.remove_null_type = rm;
    t.add_const_null = cn;
    let mut m = Map::new();
    m.insert("type".into(), types());
    if cflag() {
        m.insert("enum".into(), json!(["null", null, {"type": "null"}]));
        m.insert("properties".into(), json!({"type": {"type": "null"}, "null": {"type": ["null"]}, "p": {"type": ["string", "null"]}}));
    }
    agree(&mut t, carried(Value::Object(m)), &|v| pre(v, &|x| nullable_model(x, rm, cn)));
}
/// meaning before == meaning after, where `nullable: true` adds null to `type`
#[cfg(feature = "c12")]
pub fn nullable_meaning() {
    let (rm, cn) = (cflag(), cflag());
    let mut t = AddNullable::default();
    t.remove_null_type = rm;
    t.add_const_null = cn;
    let ty = || {
        let one = || ["null", "string", "integer"][choose(3)];
        match choose(3) {
            0 => json!(one()),
            n => Value::Array((0..n).map(|_| json!(one())).collect()),
        }
    };
    let mut m = Map::new();
    m.insert("type".into(), ty());
    if cflag() {
        m.insert("enum".into(), json!(["a", null, 3]));
    }
    let doc = match choose(4) {
        0 => Value::Object(m),
        1 => json!({"anyOf": [m, {"type": "null"}]}),
        2 => json!({"oneOf": [{"type": ["string", "null"], "minLength": 1}, m]}),
        _ => json!({"not": m, "type": ["string", "null", "integer"]}),
    };
    let mut s = schema(doc.clone());
    t.transform(&mut s);
    let inst = match choose(4) {
        0 => Value::Null,
        1 => strv(1),
        2 => small_int(),
        _ => json!([]),
    };
    let ok = same_meaning(&doc, Dialect::Any, s.as_value(), Dialect::Any, &inst);
    reach(if ok { 1 } else { 2 });
}

// ------------------------------------------------------------------------------------------ C13
#[cfg(feature = "c13")]
fn names(v: &Value, out: &mut Vec<String>) {
    if let Some(p) = v.get("properties").and_then(|p| p.as_object()) {
        out.extend(p.keys().cloned());
    }
    for k in ["if", "then", "else"] {
        if let Some(x) = v.get(k) {
            names(x, out);
        }
    }
    for k in ["allOf", "anyOf", "oneOf"] {
        if let Some(a) = v.get(k).and_then(|a| a.as_array()) {
            a.iter().for_each(|x| names(x, out));
        }
    }
}
#[cfg(feature = "c13")]
fn uneval_model(v: &mut Value) {
    let u = match v.as_object_mut().and_then(|m| m.remove("unevaluatedProperties")) {
        Some(u) => u,
        None => return,
    };
    v.as_object_mut().unwrap().insert("additionalProperties".into(), u);
    let mut ns = vec![];
    names(v, &mut ns);
    if ns.is_empty() {
        return;
    }
    if let Some(p) = v.as_object_mut().unwrap().entry("properties").or_insert(json!({})).as_object_mut() {
        for n in ns {
            p.entry(n).or_insert(json!(true));
        }
    }
}
#[cfg(feature = "c13")]
fn branch() -> Value {
    match choose(5) {
        0 => json!({}),
        1 => json!({"properties": {"a": {"type": "integer"}}}),
        2 => json!({"properties": {"a": {"const": 1}, "b": true}, "required": ["a"]}),
        3 => json!({"anyOf": [{"properties": {"b": {"type": "null"}}}, {"required": ["c"]}]}),
        _ => json!({"properties": {"b": {"unevaluatedProperties": false, "allOf": [{"properties": {"z": true}}]}}, "not": {"properties": {"n": true}}}),
    }
}
#[cfg(feature = "c13")]
fn uneval_doc() -> Value {
    let mut m = Map::new();
    if cflag() {
        m.insert("properties".into(), json!({"a": {"minimum": 0}}));
    }
    match choose(6) {
        0 => {}
        1 => {
            m.insert("allOf".into(), json!([branch(), branch()]));
        }
        2 => {
            m.insert("anyOf".into(), json!([branch(), branch()]));
        }
        3 => {
            m.insert("oneOf".into(), json!([branch(), branch()]));
        }
        4 => {
            m.insert("if".into(), branch());
            m.insert("then".into(), branch());
        }
        _ => {
            m.insert("if".into(), json!({"required": ["a"]}));
            m.insert("else".into(), branch());
            m.insert("allOf".into(), json!([branch()]));
        }
    }
    match choose(3) {
        0 => {
            m.insert("unevaluatedProperties".into(), Value::Bool(flag()));
        }
        1 => {
            m.insert("unevaluatedProperties".into(), json!({"type": "integer"}));
        }
        _ => {}
    }
    Value::Object(m)
}
#[cfg(feature = "c13")]
pub fn uneval_anywhere() {
    let inner = uneval_doc();
    let doc = carried(inner);
    agree(&mut ReplaceUnevaluatedProperties::default(), doc, &|v| post(v, &uneval_model));
}
/// names gathered from subschemas are arbitrary
#[cfg(feature = "c13")]
pub fn uneval_names() {
    let n = || ascii_n(1, 0x20, 0x7e);
    let sub = |k: &str| {
        let mut p = Map::new();
        p.insert(n(), json!({"type": k}));
        json!({"properties": p})
    };
    let mut m = Map::new();
    m.insert("properties".into(), sub("integer")["properties"].clone());
    m.insert("unevaluatedProperties".into(), json!(false));
    let key = ["allOf", "anyOf", "oneOf", "if", "then", "else", "not", "allof"][choose(8)];
    let s = sub("null");
    m.insert(key.to_string(), if key.ends_with("Of") || key == "allof" { json!([s, true]) } else { s });
    agree(&mut ReplaceUnevaluatedProperties::default(), Value::Object(m), &|v| post(v, &uneval_model));
}
/// whatever was accepted stays accepted; where every subschema applies (allOf) nothing else is
#[cfg(feature = "c13")]
pub fn uneval_meaning() {
    let doc = uneval_doc();
    let mut s = schema(doc.clone());
    ReplaceUnevaluatedProperties::default().transform(&mut s);
    let inst = object(&[("a", &|| one_of(&[&|| json!(1), &|| json!(null)])), ("b", &|| one_of(&[&|| json!(null), &|| json!({"z": 1}), &|| json!({"y": 1})])), ("c", &|| json!(2)), ("n", &|| json!("s"))]);
    let (v0, v1) = (V::new(&doc, Dialect::Any), V::new(s.as_value(), Dialect::D7));
    let (a, b) = (v0.ok(&inst), v1.ok(&inst));
    explain!("before {doc}\nafter {}\ninstance {inst}\nbefore {a} after {b}", s.as_value());
    check(!v1.malformed.get(), "malformed schema after the transform");
    check(!a | b, "a value accepted before the transform is rejected after it");
    let exact = doc.get("anyOf").is_none() && doc.get("oneOf").is_none() && doc.get("if").is_none() && !doc.to_string().contains("anyOf");
    if exact {
        check(a == b, "a value rejected before the transform is accepted after it");
        reach(3);
    }
    check(crate::tf::no_key(s.as_value(), "unevaluatedProperties"), "unevaluatedProperties left behind");
    reach(if a { 1 } else { 2 });
}
pub fn no_key(v: &Value, k: &str) -> bool {
    match v {
        Value::Object(m) => m.iter().all(|(n, x)| n != k && no_key(x, k)),
        Value::Array(a) => a.iter().all(|x| no_key(x, k)),
        _ => true,
    }
}

// ------------------------------------------------------------------------------------------ C14
/// formats named by the specifications
#[cfg(feature = "c14")]
fn defined(f: &str, meta: &str) -> bool {
    const D7F: [&str; 17] = [
        "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex",
    ];
    let new = f == "duration" || f == "uuid";
    match meta {
        M7 => D7F.contains(&f),
        M2019 | M2020 => new || D7F.contains(&f),
        _ => true,
    }
}
#[cfg(feature = "c14")]
const M7: &str = "http://json-schema.org/draft-07/schema#";
#[cfg(feature = "c14")]
const M2019: &str = "https://json-schema.org/draft/2019-09/schema";
#[cfg(feature = "c14")]
const M2020: &str = "https://json-schema.org/draft/2020-12/schema";
#[cfg(feature = "c14")]
fn formats_model(v: &mut Value, infer: bool, allowed: &[String], meta: &str) {
    let meta = match v.get("$schema") {
        Some(m) if infer => m.as_str().unwrap_or("?").to_string(),
        _ => meta.to_string(),
    };
    if infer && v.get("$schema").is_some() && meta != M7 && meta != M2019 && meta != M2020 {
        return; // another vocabulary: everything below is left alone
    }
    if let Value::Object(m) = v {
        if let Some(Value::String(f)) = m.get("format") {
            let ok = if infer { defined(f, &meta) } else { false };
            if !ok && !allowed.contains(f) {
                m.remove("format");
            }
        }
    }
    subs(v, &mut |x| formats_model(x, infer, allowed, &meta));
}
#[cfg(feature = "c14")]
fn meta(v: &mut Value, n: usize) {
    let x = match n {
        0 => return,
        1 => M7,
        2 => M2019,
        3 => M2020,
        4 => "http://json-schema.org/draft-07/schema",
        5 => "https://spec.openapis.org/oas/3.0/schema/2024-10-18",
        _ => "",
    };
    v.as_object_mut().unwrap().insert("$schema".into(), json!(x));
}
#[cfg(feature = "c14")]
fn run_formats(doc: Value, infer: bool, allowed: Vec<String>) {
    let mut t = RestrictFormats::default();
    check(t.infer_from_meta_schema & t.allowed_formats.is_empty(), "RestrictFormats' defaults changed");
    t.infer_from_meta_schema = infer;
    for a in &allowed {
        t.allowed_formats.insert(a.clone().into());
    }
    agree(&mut t, doc, &|v| formats_model(v, infer, &allowed, "none"));
}
/// every defined format (optionally with one byte changed) under every meta-schema
#[cfg(feature = "c14")]
pub fn formats_words() {
    const F: &[&str] = &[
        "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex", "duration",
        "uuid", "int32", "double",
    ];
    let mut f = F[choose(F.len() as u8)].as_bytes().to_vec();
    let p = choose(f.len() as u8 + 1);
    if p < f.len() {
        f[p] = byte(0x20, 0x7e);
    }
    let f = unsafe { String::from_utf8_unchecked(f) };
    let mut doc = json!({"format": f, "type": "string"});
    meta(&mut doc, choose(5));
    run_formats(doc, cflag(), vec![]);
}
/// any short format name against an arbitrary allow-list
#[cfg(feature = "c14")]
pub fn formats_allowed() {
    let s = || ascii_n(1 + choose(2), 0x20, 0x7e);
    let mut doc = json!({"format": s(), "not": {"format": "uuid"}});
    meta(&mut doc, [0, 1, 3, 4][choose(4)]);
    let allowed = match choose(3) {
        0 => vec![s()],
        1 => vec![s(), "uuid".to_string()],
        _ => vec![],
    };
    run_formats(doc, cflag(), allowed);
}
/// nested $schema, in every position
#[cfg(feature = "c14")]
pub fn formats_nested() {
    let mut inner = json!({"format": (["uuid", "date", "custom", "other"][choose(4)]), "properties": {"format": {"format": "custom"}}, "default": {"format": "x"}});
    meta(&mut inner, [0, 1, 3, 4, 6][choose(5)]);
    let mut doc = wrap(inner, choose(NPOS));
    doc.as_object_mut().unwrap().insert("format".into(), json!("uuid"));
    doc.as_object_mut().unwrap().insert("oneOf".into(), json!([{"format": "duration"}]));
    meta(&mut doc, [0, 1, 2, 5][choose(4)]);
    let infer = cflag();
    let allowed = if cflag() { vec!["custom".to_string()] } else { vec![] };
    run_formats(doc, infer, allowed);
}
#[cfg(feature = "c08")]
pub fn bools_near() {
    let skip = cflag();
    let mut t = ReplaceBoolSchemas::default();
    t.skip_additional_properties = skip;
    agree(&mut t, near_doc(&["additionalProperties", "not", "items"], Value::Bool(flag())), &|v| bools_model(v, skip));
}
#[cfg(feature = "c09")]
pub fn refsib_near() {
    let mut d = near_doc(&["$ref"], json!("#/x"));
    if cflag() {
        d.as_object_mut().unwrap().insert(near(&["allOf"]), json!([{"type": "null"}]));
    }
    agree(&mut RemoveRefSiblings::default(), d, &|v| post(v, &refsib_model));
}
#[cfg(feature = "c10")]
pub fn const_near() {
    agree(&mut ReplaceConstValue::default(), near_doc(&["const", "enum"], json!([1])), &|v| post(v, &const_model));
    agree(&mut SetSingleExample::default(), near_doc(&["examples", "example"], json!([1, 2])), &|v| post(v, &example_model));
}
#[cfg(feature = "c11")]
pub fn prefix_near() {
    let mut d = near_doc(&["prefixItems"], json!([true]));
    d.as_object_mut().unwrap().insert(near(&["items", "additionalItems"]), json!({"type": "null"}));
    agree(&mut ReplacePrefixItems::default(), d, &|v| post(v, &prefix_model));
}
#[cfg(feature = "c12")]
pub fn nullable_near() {
    let mut t = AddNullable::default();
    let (rm, cn) = (cflag(), cflag());
    t.remove_null_type = rm;
    t.add_const_null = cn;
    let d = match choose(3) {
        0 => near_doc(&["type", "nullable"], json!("null")),
        1 => json!({"type": near(&["null"])}),
        _ => json!({"type": ["string", near(&["null"])]}),
    };
    agree(&mut t, d, &|v| pre(v, &|x| nullable_model(x, rm, cn)));
}
#[cfg(feature = "c13")]
pub fn uneval_near() {
    let mut d = near_doc(&["unevaluatedProperties", "additionalProperties"], json!(false));
    d.as_object_mut().unwrap().insert(near(&["if", "then", "else", "not"]), json!({"properties": {"p": true}}));
    agree(&mut ReplaceUnevaluatedProperties::default(), d, &|v| post(v, &uneval_model));
}
#[cfg(feature = "c14")]
pub fn formats_near() {
    let mut d = near_doc(&["format", "$schema"], json!("custom"));
    d.as_object_mut().unwrap().insert("not".into(), json!({"format": "other"}));
    if cflag() {
        d.as_object_mut().unwrap().entry("$schema".to_string()).or_insert(json!(M2020));
    }
    run_formats(d, cflag(), vec![]);
}
