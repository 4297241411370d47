//! C18–C20, C15: a battery of derived types. For each type the schema comes from derive(JsonSchema), the truth
//! from derive(Deserialize) / derive(Serialize); the instances are template documents with symbolic edits.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
#[cfg(any(feature = "c15", feature = "c19", feature = "c20", feature = "c26"))]
use crate::types::*;
use crate::val::{Dialect, V};
use schemars::generate::SchemaSettings;
use serde_json::{json, Map, Value};

const THOROUGH: bool = cfg!(feature = "thorough");
const C15: bool = cfg!(feature = "c15");

pub const EXACT: u8 = 0;
/// the schema may accept what serde rejects
pub const SCHEMA_LENIENT: u8 = 1;
/// serde may accept what the schema rejects
pub const SERDE_LENIENT: u8 = 2;
/// a set is given an element twice: serde takes it, the schema must not
#[allow(dead_code)]
pub const REPEATED: u8 = 6;

/// One type of the battery.
pub struct Ty {
    pub name: &'static str,
    pub schema: fn(SchemaSettings) -> Value,
    /// the schema and its definitions, each transformed, assembled under /components/schemas
    pub parts: fn(SchemaSettings) -> Value,
    /// None: rejected; Some(Err): accepted, cannot be serialized; Some(Ok): accepted, and serialized again
    pub de: fn(Value) -> Option<Result<Value, ()>>,
    pub tpl: fn() -> Vec<Value>,
    /// small: a second edit also in the quick tier
    pub deep: bool,
    /// a struct: entries written for every template are written for every value
    pub always: bool,
    /// documented deviations between serde and the schema for a document
    pub quirk: fn(&Value) -> u8,
}

enum Act {
    Keep,
    Delete,
    Rename(String),
}
fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(nodes).sum(),
        Value::Object(m) => m.values().map(nodes).sum(),
        _ => 0,
    }
}
fn has_array(v: &Value) -> bool {
    match v {
        Value::Array(_) => true,
        Value::Object(m) => m.values().any(has_array),
        _ => false,
    }
}
fn subvalues(v: &Value, out: &mut Vec<Value>, keys: &mut Vec<String>) {
    if !out.contains(v) {
        out.push(v.clone());
    }
    match v {
        Value::Array(a) => a.iter().for_each(|x| subvalues(x, out, keys)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            if !keys.contains(k) {
                keys.push(k.clone());
            }
            subvalues(x, out, keys)
        }),
        _ => {}
    }
}
struct Pool {
    vals: Vec<Value>,
    keys: Vec<String>,
    /// an array or number was put where there was none (serde accepts sequences for structs and numbers for
    /// variant names, schemas do not)
    seq: bool,
}
impl Pool {
    /// an object with one null entry that no template contains
    fn lone_null(&self, v: &Value) -> bool {
        match v {
            Value::Array(a) => a.iter().any(|x| self.lone_null(x)),
            Value::Object(m) => (m.len() == 1 && m.values().all(Value::is_null) && !self.vals.contains(v)) || m.values().any(|x| self.lone_null(x)),
            _ => false,
        }
    }
}
fn apply(v: &mut Value, n: &mut usize, keyed: Option<&str>, p: &mut Pool) -> Option<Act> {
    if *n == 0 {
        return Some(edit(v, keyed, p));
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                if let Some(act) = apply(&mut a[i], n, None, p) {
                    if let Act::Delete = act {
                        a.remove(i);
                    }
                    return Some(Act::Keep);
                }
            }
            None
        }
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            for k in keys {
                if let Some(act) = apply(m.get_mut(&k)?, n, Some(&k), p) {
                    match act {
                        Act::Keep => {}
                        Act::Delete => {
                            m.remove(&k);
                        }
                        Act::Rename(to) => {
                            let x = m.remove(&k)?;
                            m.insert(to, x);
                        }
                    }
                    return Some(Act::Keep);
                }
            }
            None
        }
        _ => None,
    }
}
/// the string with one byte replaced by, or followed by, any printable byte
fn near(s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    let at = choose(b.len().min(4) as u8 + 1);
    if at < b.len().min(4) {
        b[at] = byte(0x21, 0x7e);
    } else {
        b.push(byte(0x21, 0x7e));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
fn other(p: &mut Pool, was_array: bool, was_number: bool) -> Value {
    let v = match choose(9) {
        0 => Value::Null,
        1 => boolv(),
        2 => json!(byte(0, 9)),
        3 => json!(-3),
        4 => strv(1),
        5 => json!([]),
        6 => json!({}),
        7 => json!(1.5),
        _ => p.vals[choose(p.vals.len() as u8)].clone(),
    };
    if has_array(&v) && !was_array {
        p.seq = true;
    }
    // serde also takes variant numbers for the tags of internally tagged enums
    if v.is_number() && !was_number {
        p.seq = true;
    }
    v
}
fn edit(v: &mut Value, keyed: Option<&str>, p: &mut Pool) -> Act {
    let inside = match v {
        Value::Object(_) => 2,
        Value::Array(_) => 2,
        Value::String(_) => 1,
        _ => 0,
    };
    let n = 1 + if keyed.is_some() { 3 } else { 0 } + inside;
    let mut c = choose(n as u8);
    if c == 0 {
        let (arr, num) = (v.is_array(), v.is_number());
        *v = other(p, arr, num);
        return Act::Keep;
    }
    c -= 1;
    if let Some(k) = keyed {
        match c {
            0 => return Act::Delete,
            1 => return Act::Rename(near(k)),
            2 => return Act::Rename(p.keys[choose(p.keys.len() as u8)].clone()),
            _ => c -= 3,
        }
    }
    match v {
        Value::Object(m) => {
            // an extra entry: an unknown or a known name
            let k = if c == 0 { ascii_n(1, 0x61, 0x7a) } else { p.keys[choose(p.keys.len() as u8)].clone() };
            let x = other(p, false, false);
            m.insert(k, x);
        }
        Value::Array(a) => {
            if c == 0 {
                a.pop();
            } else {
                let x = other(p, false, false);
                a.push(x);
            }
        }
        Value::String(s) => *s = near(s),
        _ => {}
    }
    Act::Keep
}
/// A template of the type with one or two edits anywhere.
fn instance(t: &Ty, p: &mut Pool) -> Value {
    let tpl = (t.tpl)();
    let mut keys = vec!["zz".to_string()];
    let mut vals = vec![];
    for x in &tpl {
        subvalues(x, &mut vals, &mut keys);
    }
    *p = Pool { vals, keys, seq: false };
    let mut v = tpl[choose(tpl.len() as u8)].clone();
    let mut from = 0;
    // thorough: two edits everywhere (C15: only in the small types), quick: only in the small types (C15: nowhere)
    let edits = if if C15 { THOROUGH && t.deep } else { THOROUGH || t.deep } { 2 } else { 1 };
    for _ in 0..edits {
        let n = nodes(&v);
        if from >= n {
            break;
        }
        let at = from + choose((n - from) as u8 + 1);
        if at == n {
            break; // no (further) edit
        }
        from = at;
        let mut at = at;
        apply(&mut v, &mut at, None, p);
    }
    v
}
fn pick_ty(tys: &[Ty]) -> &Ty {
    &tys[choose(tys.len() as u8)]
}

// ------------------------------------------------------------------------------------------ C19
#[cfg(any(feature = "c19", feature = "c21", feature = "c22", feature = "c26", feature = "c28"))]
pub fn contract(tys: &[Ty]) {
    let t = pick_ty(tys);
    let de = (t.schema)(SchemaSettings::default().for_deserialize());
    let mut p = Pool { vals: vec![], keys: vec![], seq: false };
    let j = instance(t, &mut p);
    let vd = V::new(&de, Dialect::D2020);
    let ok = vd.ok(&j);
    check(!vd.dangling.get() && !vd.malformed.get(), "dangling reference or malformed keyword in a derived schema");
    let r = (t.de)(j.clone());
    explain!("{}\nschema for deserializing {de}\ninstance {j}: schema accepts it: {ok}, deserialization: {r:?}", t.name);
    observe(&[ok as u8, r.is_some() as u8]);
    let q = (t.quirk)(&j);
    check(!ok || r.is_some() || q & SCHEMA_LENIENT != 0, "the schema for deserializing accepts a document that cannot be deserialized");
    check(!ok || q & REPEATED != REPEATED, "the schema of a set accepts repeated elements");
    // not modelled: sequences for structs, {"Variant": null} for unit variants, errors turned into None
    if !p.seq && !p.lone_null(&j) && q & SERDE_LENIENT == 0 {
        check(ok || r.is_none(), "the schema for deserializing rejects a document that can be deserialized");
    }
    reach(if r.is_some() { 1 } else { 2 });
}
#[cfg(feature = "c19")]
pub fn structs() {
    contract(STRUCTS)
}
#[cfg(feature = "c19")]
pub fn combo_structs() {
    contract(crate::combo::COMBO_STRUCTS)
}
#[cfg(feature = "c19")]
pub fn combo_enums() {
    contract(&crate::combo::COMBO_ENUMS[..6])
}
#[cfg(feature = "c19")]
pub fn combo_enums2() {
    if THOROUGH && cflag() {
        return contract(crate::combo::COMBO_MORE);
    }
    contract(&crate::combo::COMBO_ENUMS[6..])
}
#[cfg(feature = "c20")]
pub fn ser_combos() {
    serialized(crate::combo::COMBO_STRUCTS)
}
#[cfg(feature = "c20")]
pub fn ser_combos2() {
    serialized(&crate::combo::COMBO_ENUMS[..6])
}
#[cfg(feature = "c20")]
pub fn ser_combos3() {
    if THOROUGH && cflag() {
        return serialized(crate::combo::COMBO_MORE);
    }
    serialized(&crate::combo::COMBO_ENUMS[6..])
}
#[cfg(feature = "c19")]
pub fn enums_external() {
    contract(ENUMS_EXTERNAL)
}
#[cfg(feature = "c19")]
pub fn enums_internal() {
    contract(ENUMS_INTERNAL)
}
#[cfg(feature = "c19")]
pub fn enums_adjacent() {
    contract(ENUMS_ADJACENT)
}
#[cfg(feature = "c19")]
pub fn enums_untagged() {
    contract(ENUMS_UNTAGGED)
}
#[cfg(feature = "c19")]
pub fn flattened() {
    contract(FLATTENED)
}
#[cfg(feature = "c19")]
pub fn combined() {
    contract(COMBINED)
}
#[cfg(feature = "c19")]
pub fn containers() {
    contract(CONTAINERS)
}
/// `default` is what deserialization uses for a missing field
#[cfg(feature = "c19")]
pub fn defaults() {
    let t = pick_ty(DEFAULTS);
    let de = (t.schema)(SchemaSettings::default().for_deserialize());
    let props = de.get("properties").and_then(Value::as_object).cloned().unwrap_or_default();
    let with_default: Vec<&String> = props.iter().filter(|(_, s)| s.get("default").is_some()).map(|(k, _)| k).collect();
    if with_default.is_empty() {
        fail("no default in the schema");
    }
    let k = with_default[choose(with_default.len() as u8)];
    let d = &props[k]["default"];
    let mut p = Pool { vals: vec![], keys: vec![], seq: false };
    let mut j = instance(t, &mut p);
    if let Value::Object(m) = &mut j {
        m.remove(k);
        let without = (t.de)(j.clone());
        let mut with = j.clone();
        with[k] = d.clone();
        let explicit = (t.de)(with.clone());
        explain!("{}\nschema {de}\n{j} -> {without:?}\n{with} -> {explicit:?}", t.name);
        observe(&[without.is_some() as u8, explicit.is_some() as u8]);
        check(without == explicit, "a default in the schema differs from what deserialization uses");
        let v = V::new(&de, Dialect::D2020);
        check(v.ok(&j) == v.ok(&with), "the schema treats the default differently from a missing field");
        reach(if without.is_some() { 1 } else { 2 });
    }
}

// ------------------------------------------------------------------------------------------ C20
/// out is a serialized value: the schema for serializing accepts it
#[cfg(any(feature = "c20", feature = "c21", feature = "c22", feature = "c26", feature = "c28"))]
pub fn accepted(_name: &str, ser: &Value, out: &Value) {
    let vs = V::new(ser, Dialect::D2020);
    let ok = vs.ok(out);
    explain!("{_name}\nschema for serializing {ser}\nserialized {out}: schema for serializing accepts it: {ok}");
    observe_value(out);
    check(!vs.dangling.get() && !vs.malformed.get(), "dangling reference or malformed keyword in a derived schema");
    check(ok, "the schema for serializing rejects a serialized value");
}
#[cfg(any(feature = "c20", feature = "c21", feature = "c22", feature = "c26", feature = "c28"))]
pub fn serialized(tys: &[Ty]) {
    let t = pick_ty(tys);
    let ser = (t.schema)(SchemaSettings::default().for_serialize());
    // what is written for the unedited templates: entries found in all of them are always written
    let outs: Vec<Value> = (t.tpl)().into_iter().filter_map(|j| (t.de)(j)?.ok()).collect();
    let mut p = Pool { vals: vec![], keys: vec![], seq: false };
    let j = instance(t, &mut p);
    match (t.de)(j) {
        Some(Ok(out)) => {
            accepted(t.name, &ser, &out);
            if let Value::Object(m) = &out {
                if t.always {
                    for k in m.keys() {
                        if outs.iter().all(|o| o.get(k).is_some()) {
                            let mut less = out.clone();
                            if let Value::Object(l) = &mut less {
                                l.remove(k);
                            }
                            let v = V::new(&ser, Dialect::D2020);
                            explain!("without {k}");
                            check(!v.ok(&less), "the schema for serializing does not require a field that is always written");
                        }
                    }
                }
            }
            reach(1);
        }
        Some(Err(())) => reach(2),
        None => reach(3),
    }
}
#[cfg(feature = "c20")]
pub fn ser_structs() {
    serialized(STRUCTS)
}
#[cfg(feature = "c20")]
pub fn ser_external() {
    serialized(ENUMS_EXTERNAL)
}
#[cfg(feature = "c20")]
pub fn ser_internal() {
    serialized(ENUMS_INTERNAL)
}
#[cfg(feature = "c20")]
pub fn ser_adjacent() {
    serialized(ENUMS_ADJACENT)
}
#[cfg(feature = "c20")]
pub fn ser_untagged() {
    serialized(ENUMS_UNTAGGED)
}
#[cfg(feature = "c20")]
pub fn ser_flattened() {
    serialized(FLATTENED)
}
#[cfg(feature = "c20")]
pub fn ser_combined() {
    serialized(COMBINED)
}
#[cfg(feature = "c20")]
pub fn ser_containers() {
    serialized(CONTAINERS)
}
/// values that cannot be reached by deserializing
#[cfg(feature = "c20")]
pub fn ser_only() {
    let (name, ser, out) = out_value(choose(OUT_VALUES));
    match out {
        Some(out) => {
            accepted(name, &ser, &out);
            reach(1);
        }
        None => reach(2),
    }
}

// ------------------------------------------------------------------------------------------ C15
const FORMS: [&str; 4] = ["draft 7", "2019-09", "OpenAPI 3.0", "inlined"];
/// Is every schema in the document written in the dialect's vocabulary?
#[cfg(feature = "c15")]
fn conforms(s: &Value, d: Dialect) -> bool {
    let m = match s {
        Value::Bool(_) => return d != Dialect::Oas3,
        Value::Object(m) => m,
        _ => return false,
    };
    let bad: &[&str] = match d {
        Dialect::D7 => &["prefixItems", "$defs", "unevaluatedProperties", "unevaluatedItems", "dependentSchemas", "dependentRequired", "minContains", "maxContains", "nullable", "$anchor", "$dynamicRef"],
        Dialect::D2019 => &["prefixItems", "definitions", "dependencies", "nullable", "$dynamicRef"],
        Dialect::Oas3 => &["prefixItems", "$defs", "definitions", "unevaluatedProperties", "unevaluatedItems", "const", "examples", "patternProperties", "if", "then", "else", "contains", "propertyNames", "dependentSchemas", "dependentRequired"],
        _ => &["additionalItems", "definitions", "dependencies", "nullable"],
    };
    if m.keys().any(|k| bad.contains(&k.as_str())) {
        return false;
    }
    if matches!(d, Dialect::D7 | Dialect::Oas3) && m.contains_key("$ref") && m.len() != 1 && !m.contains_key("$schema") {
        return false;
    }
    if matches!(d, Dialect::Oas3) && !matches!(m.get("type"), None | Some(Value::String(_))) {
        return false;
    }
    if matches!(d, Dialect::Oas3) && m.get("type") == Some(&json!("null")) {
        return false;
    }
    if matches!(d, Dialect::D2020) && matches!(m.get("items"), Some(Value::Array(_))) {
        return false;
    }
    m.iter().all(|(k, v)| match k.as_str() {
        "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" => v.as_object().is_some_and(|o| o.values().all(|x| conforms(x, d))),
        "allOf" | "anyOf" | "oneOf" | "prefixItems" => v.as_array().is_some_and(|a| a.iter().all(|x| conforms(x, d))),
        "items" => match v {
            Value::Array(a) => a.iter().all(|x| conforms(x, d)),
            x => conforms(x, d),
        },
        "additionalProperties" => v.is_boolean() || conforms(v, d),
        "not" | "if" | "then" | "else" | "contains" | "propertyNames" | "unevaluatedProperties" | "unevaluatedItems" | "additionalItems" => conforms(v, d),
        _ => true,
    })
}
#[cfg(feature = "c15")]
fn mentions(s: &Value, key: &str) -> bool {
    match s {
        Value::Object(m) => m.contains_key(key) || m.values().any(|v| mentions(v, key)),
        Value::Array(a) => a.iter().any(|v| mentions(v, key)),
        _ => false,
    }
}
#[cfg(feature = "c15")]
fn dialects(tys: &[Ty]) {
    let t = pick_ty(tys);
    let form = choose(4);
    let ser = cflag();
    let with = |s: SchemaSettings| if ser { s.for_serialize() } else { s.for_deserialize() };
    let base = (t.schema)(with(SchemaSettings::draft2020_12()));
    let (other, d, uri) = match form {
        0 => ((t.schema)(with(SchemaSettings::draft07())), Dialect::D7, "http://json-schema.org/draft-07/schema#"),
        1 => ((t.schema)(with(SchemaSettings::draft2019_09())), Dialect::D2019, "https://json-schema.org/draft/2019-09/schema"),
        2 => ((t.parts)(with(SchemaSettings::openapi3())), Dialect::Oas3, ""),
        _ => ((t.schema)(with(SchemaSettings::draft2020_12().with(|s| s.inline_subschemas = true))), Dialect::D2020, "https://json-schema.org/draft/2020-12/schema"),
    };
    if form != 2 {
        check(other.get("$schema").and_then(Value::as_str) == Some(uri), "wrong $schema");
    }
    let mut bare = other.clone();
    if let Value::Object(m) = &mut bare {
        m.remove("components");
        m.remove("$schema");
    }
    let comps = other.pointer("/components/schemas").and_then(Value::as_object);
    let fits = conforms(&bare, d) && comps.is_none_or(|o| o.values().all(|x| conforms(x, d)));
    explain!("{} as {}: {other}", t.name, FORMS[form]);
    check(fits, "a schema uses keywords its dialect does not define");
    let mut p = Pool { vals: vec![], keys: vec![], seq: false };
    let j = instance(t, &mut p);
    let (vb, mut vo) = (V::new(&base, Dialect::D2020), V::new(&other, d));
    vo.tuple_items = true;
    let (a, b) = (vb.ok(&j), vo.ok(&j));
    explain!("2020-12: {base}\ninstance {j}: 2020-12 {a}, {} {b}", FORMS[form]);
    observe(&[a as u8, b as u8]);
    check(!vo.dangling.get() && !vo.malformed.get(), "dangling reference or malformed keyword");
    check(b || !a, "the schema in this dialect rejects what the 2020-12 schema accepts");
    if form == 1 || form == 3 || !mentions(&base, "unevaluatedProperties") {
        check(a || !b, "the schema in this dialect accepts what the 2020-12 schema rejects");
    }
    reach(if a { 1 } else { 2 });
}
#[cfg(feature = "c15")]
pub fn dialects_structs() {
    dialects(STRUCTS)
}
#[cfg(feature = "c15")]
pub fn dialects_external() {
    dialects(ENUMS_EXTERNAL)
}
#[cfg(feature = "c15")]
pub fn dialects_tagged() {
    if cflag() {
        dialects(ENUMS_INTERNAL)
    } else {
        dialects(ENUMS_ADJACENT)
    }
}
#[cfg(feature = "c15")]
pub fn dialects_combined() {
    dialects(COMBINED)
}
#[cfg(feature = "c15")]
pub fn dialects_untagged() {
    dialects(ENUMS_UNTAGGED)
}
#[cfg(feature = "c15")]
pub fn dialects_flattened() {
    if cflag() {
        dialects(FLATTENED)
    } else {
        dialects(CONTAINERS)
    }
}
/// OpenAPI 3.0 root schemas: the definitions are at /components/schemas
#[cfg(feature = "c15")]
pub fn openapi_root() {
    let t = pick_ty(STRUCTS);
    let other = (t.schema)(SchemaSettings::openapi3());
    let mut bare = other.clone();
    if let Value::Object(m) = &mut bare {
        m.remove("components");
        m.remove("$schema");
    }
    explain!("{}: {other}", t.name);
    check(conforms(&bare, Dialect::Oas3), "an OpenAPI root schema uses keywords OpenAPI does not define");
    let comps = other.pointer("/components/schemas").cloned().unwrap_or_else(|| json!({}));
    let raw = (t.schema)(SchemaSettings::openapi3().with(|s| s.transforms.clear())).pointer("/components/schemas").cloned().unwrap_or_else(|| json!({}));
    let fits = comps.as_object().is_some_and(|o| o.values().all(|x| conforms(x, Dialect::Oas3)));
    check(fits || comps == raw, "definitions of an OpenAPI root schema are neither transformed nor as generated");
    check(fits, "definitions of an OpenAPI root schema are not transformed");
    reach(1);
}
