//! C16 the Schema type; C17 Option.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{json_eq, Dialect, V};
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;

const THOROUGH: bool = cfg!(feature = "thorough");

// ------------------------------------------------------------------------------------------ C16
/// A JSON document as written: keys in order, duplicates kept.
#[cfg(feature = "c16")]
#[derive(PartialEq, Debug)]
enum Doc {
    Leaf(Value),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}
/// A parser of its own for the serialized text (serde_json's reads eight bytes at a time).
#[cfg(feature = "c16")]
struct P<'a>(&'a [u8], usize);
#[cfg(feature = "c16")]
impl P<'_> {
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.0.get(self.1) == Some(&c) {
            self.1 += 1;
            Some(())
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = *self.0.get(self.1)?;
            self.1 += 1;
            if c == b'"' {
                break;
            }
            if c < 0x20 {
                return None;
            }
            if c != b'\\' {
                out.push(c);
                continue;
            }
            let e = *self.0.get(self.1)?;
            self.1 += 1;
            match e {
                b'"' | b'\\' | b'/' => out.push(e),
                b'n' => out.push(10),
                b'r' => out.push(13),
                b't' => out.push(9),
                b'b' => out.push(8),
                b'f' => out.push(12),
                b'u' => {
                    let mut v = 0u32;
                    for _ in 0..4 {
                        let h = *self.0.get(self.1)?;
                        self.1 += 1;
                        v = v * 16 + if h <= b'9' { h.wrapping_sub(b'0') } else { (h | 32).wrapping_sub(b'a') + 10 } as u32;
                    }
                    if v >= 0x80 {
                        return None; // not needed: serde_json escapes control characters only
                    }
                    out.push(v as u8);
                }
                _ => return None,
            }
        }
        Some(unsafe { String::from_utf8_unchecked(out) })
    }
    fn value(&mut self) -> Option<Doc> {
        let rest = &self.0[self.1..];
        for (w, v) in [("null", Value::Null), ("true", json!(true)), ("false", json!(false))] {
            if rest.starts_with(w.as_bytes()) {
                self.1 += w.len();
                return Some(Doc::Leaf(v));
            }
        }
        match *rest.first()? {
            b'"' => Some(Doc::Leaf(Value::String(self.string()?))),
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                if self.eat(b']').is_some() {
                    return Some(Doc::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.eat(b']').is_some() {
                        return Some(Doc::Arr(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.1 += 1;
                let mut v = vec![];
                if self.eat(b'}').is_some() {
                    return Some(Doc::Obj(v));
                }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    if self.eat(b'}').is_some() {
                        return Some(Doc::Obj(v));
                    }
                    self.eat(b',')?;
                }
            }
            _ => {
                let n = rest.iter().take_while(|c| matches!(c, b'0'..=b'9' | b'-')).count();
                self.1 += n;
                std::str::from_utf8(&rest[..n]).ok()?.parse::<i64>().ok().map(|i| Doc::Leaf(i.into()))
            }
        }
    }
}
#[cfg(feature = "c16")]
fn matches(d: &Doc, v: &Value) -> bool {
    match (d, v) {
        (Doc::Leaf(x), v) => json_eq(x, v),
        (Doc::Arr(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches(x, y)),
        // same number of entries + every key of v found = no duplicates, nothing lost
        (Doc::Obj(a), Value::Object(b)) => a.len() == b.len() && b.iter().all(|(k, y)| a.iter().any(|(n, x)| n == k && matches(x, y))),
        _ => false,
    }
}
/// the documented order: some keywords first, definitions last, the rest sorted
#[cfg(feature = "c16")]
fn rank(k: &str) -> usize {
    const FIRST: [&str; 7] = ["$id", "$schema", "title", "description", "type", "format", "properties"];
    match FIRST.iter().position(|f| *f == k) {
        Some(p) => p,
        None if k == "$defs" => 20,
        None if k == "definitions" => 21,
        None => 10,
    }
}
#[cfg(feature = "c16")]
fn ordered(d: &Doc, mode: u8) -> bool {
    // mode 0: schema, 1: name -> schema, 2: plain data
    match d {
        Doc::Leaf(_) => true,
        // (an array in the place of a name -> schema map is not a schema: any order)
        Doc::Arr(a) => mode == 1 || a.iter().all(|x| ordered(x, mode)),
        Doc::Obj(m) => {
            for w in m.windows(2) {
                let (a, b) = (&w[0].0, &w[1].0);
                let ok = if mode == 0 && rank(a) != rank(b) { rank(a) < rank(b) } else { a.as_bytes() < b.as_bytes() };
                if !ok {
                    return false;
                }
            }
            m.iter().all(|(k, x)| {
                let sub = match mode {
                    2 => 2,
                    1 => 0,
                    _ => match k.as_str() {
                        "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => 1,
                        "examples" | "default" => 2,
                        // the order inside const and enum data is not specified
                        "const" | "enum" => return true,
                        _ if k.starts_with("x-") => 2,
                        _ => 0,
                    },
                };
                ordered(x, sub)
            })
        }
    }
}
#[cfg(feature = "c16")]
const KEYS: &[&str] = &["$id", "$schema", "title", "description", "type", "format", "properties", "$defs", "definitions", "examples", "default", "x-z", "allOf", "additionalProperties", "if", "required", "patternProperties", "zzz", "$ref", "dependentSchemas"];
#[cfg(feature = "c16")]
fn written(doc: Value, back: bool) {
    let s = match Schema::try_from(doc.clone()) {
        Ok(s) => s,
        Err(_) => fail("Schema::try_from rejects an object or boolean"),
    };
    let text = match serde_json::to_string(&s) {
        Ok(t) => t,
        Err(_) => fail("serializing a schema failed"),
    };
    explain!("{doc} -> {text}");
    observe(text.as_bytes());
    let mut p = P(text.as_bytes(), 0);
    let d = match p.value() {
        Some(d) if p.1 == text.len() => d,
        _ => fail("a serialized schema is not valid JSON"),
    };
    check(matches(&d, &doc), "serialization loses, duplicates or changes something");
    check(ordered(&d, 0), "serialized keywords are not in the documented order");
    match serde_json::to_value(&s) {
        Ok(v) => check(v == doc, "to_value of a schema differs from the schema"),
        Err(_) => fail("to_value of a schema failed"),
    }
    match serde_json::from_value::<Schema>(doc.clone()) {
        Ok(t) => check(t == s, "a schema does not survive a round trip"),
        Err(_) => fail("a schema cannot be read back"),
    }
    if back {
        match serde_json::from_str::<Schema>(&text) {
            Ok(t) => check(t == s, "a schema does not survive a round trip"),
            Err(_) => fail("a serialized schema cannot be read back"),
        }
    }
    check(*s.as_value() == doc, "as_value differs");
    check(s.clone().to_value() == doc && Value::from(s) == doc, "to_value differs");
    reach(1);
}
/// three keywords at the root and three in a nested position
#[cfg(feature = "c16")]
pub fn ser_keywords() {
    let n = KEYS.len() as u8;
    let mut m = Map::new();
    let inner = json!({"zzz": 1, "type": "string", "$defs": {"b": {}, "$id": {}}, "title": "t", "format": "f", "a": [{"x": 1, "title": 2}]});
    for _ in 0..(if THOROUGH { 3 } else { 2 }) {
        m.insert(KEYS[choose(n)].to_string(), json!(1));
    }
    m.insert(KEYS[choose(n)].to_string(), match choose(3) {
        0 => inner,
        1 => json!([inner, true]),
        _ => json!({"properties": inner, "title": inner, "aaa": inner}),
    });
    written(Value::Object(m), true);
}
/// arbitrary key next to fixed ones; arbitrary string content
#[cfg(feature = "c16")]
pub fn ser_keys() {
    let mut m = Map::new();
    m.insert("title".into(), json!("t"));
    m.insert("definitions".into(), json!({"type": {}}));
    m.insert("m".into(), json!({"type": 1, "b": 2}));
    if cflag() {
        let mut k = ascii(2);
        if cflag() {
            k.push('\u{e9}');
        }
        m.insert(k, json!({"title": 1, "a": 2}));
    } else {
        m.insert("k".to_string(), Value::String(utf8(1)));
    }
    written(Value::Object(m), false);
}
/// keywords with one byte changed are ordinary keys
#[cfg(feature = "c16")]
pub fn ser_near() {
    const W: &[&str] = &["$id", "$schema", "title", "properties", "$defs", "definitions", "examples", "default", "x-z"];
    let mut f = W[choose(W.len() as u8)].as_bytes().to_vec();
    let p = choose(f.len() as u8 + 1);
    if p < f.len() {
        f[p] = byte(0x23, 0x5b);
    } else {
        f.push(byte(0x23, 0x5b));
    }
    let mut m = Map::new();
    m.insert("title".into(), json!("t"));
    m.insert("definitions".into(), json!({"type": {}}));
    m.insert("m".into(), json!({"type": 1, "b": 2}));
    m.insert(unsafe { String::from_utf8_unchecked(f) }, json!({"title": 1, "a": 2}));
    written(Value::Object(m), false);
}
/// exactly objects and booleans are schemas
#[cfg(feature = "c16")]
pub fn accept_value() {
    let v = match choose(8) {
        0 => Value::Null,
        1 => boolv(),
        2 => one_of(&[&|| json!(0), &|| json!(-7), &|| json!(18446744073709551615u64)]),
        3 => strv(2),
        4 => array(2, &scalar_any),
        5 => object(&[("a", &scalar_any), ("$ref", &scalar_any)]),
        6 => json!(1.5),
        _ => json!({"type": 5, "properties": [1]}),
    };
    let want = matches!(v, Value::Bool(_) | Value::Object(_));
    check(Schema::try_from(v.clone()).is_ok() == want, "try_from(Value) accepts the wrong values");
    check(<&Schema>::try_from(&v).is_ok() == want, "try_from(&Value) accepts the wrong values");
    check(serde_json::from_value::<Schema>(v.clone()).is_ok() == want, "from_value accepts the wrong values");
    let mut w = v.clone();
    match <&mut Schema>::try_from(&mut w) {
        Ok(s) => {
            check(want, "try_from(&mut Value) accepts the wrong values");
            check(*s.as_value() == v, "try_from(&mut Value) changes the value");
            s.insert("added".into(), json!(1));
            check(w.get("added") == Some(&json!(1)), "changes through &mut Schema are lost");
            reach(1);
        }
        Err(_) => {
            check(!want, "try_from(&mut Value) rejects a schema");
            check(w == v, "a failed try_from changes the value");
            reach(2);
        }
    }
    if let Ok(s) = <&Schema>::try_from(&v) {
        check(*s.as_value() == v, "try_from(&Value) changes the value");
    }
}
#[cfg(feature = "c16")]
pub fn accept_text() {
    let t = ascii(if THOROUGH { 4 } else { 3 });
    let v = serde_json::from_str::<Value>(&t);
    let s = serde_json::from_str::<Schema>(&t);
    let want = matches!(v, Ok(Value::Bool(_) | Value::Object(_)));
    check(s.is_ok() == want, "reading a schema from text accepts the wrong documents");
    if let (Ok(v), Ok(s)) = (v, s) {
        check(*s.as_value() == v, "a schema read from text differs from the document");
        reach(1);
    } else {
        reach(2);
    }
}
/// the small accessors agree with each other on every schema
#[cfg(feature = "c16")]
pub fn accessors() {
    let doc = match choose(4) {
        0 => boolv(),
        1 => json!({}),
        2 => object(&[("a", &scalar_any), ("b", &scalar_any)]),
        _ => json!({"not": {}}),
    };
    let s = match Schema::try_from(doc.clone()) {
        Ok(s) => s,
        Err(_) => fail("Schema::try_from rejects an object or boolean"),
    };
    check(s.as_bool() == doc.as_bool(), "as_bool");
    check(s.as_object() == doc.as_object(), "as_object");
    check(s == doc && doc == s, "comparison with a value");
    check((s == true) == (doc == json!(true)) && (s == false) == (doc == json!(false)), "comparison with a bool");
    let k = ascii_n(1, 0x20, 0x7e);
    check(s.get(&k) == doc.get(&k), "get");
    check(s.get(&k).is_some() == doc.as_object().is_some_and(|o| o.contains_key(&k)), "get");
    let mut t = s.clone();
    check(t.get_mut(&k).map(|v| v.clone()) == doc.get(&k).cloned(), "get_mut");
    // ensure_object keeps the meaning
    let mut e = s.clone();
    e.ensure_object();
    let want = match &doc {
        Value::Bool(true) => json!({}),
        Value::Bool(false) => json!({"not": {}}),
        o => o.clone(),
    };
    check(*e.as_value() == want, "ensure_object changes what the schema accepts");
    // insert / remove
    let mut i = s.clone();
    let v = scalar_any();
    let old = i.insert(k.clone(), v.clone());
    check(old == want.get(&k).cloned(), "insert returns the wrong previous value");
    check(i.get(&k) == Some(&v), "inserted keyword not found");
    check(i.as_object().map(|o| o.len()) == Some(want.as_object().unwrap().len() + if old.is_some() { 0 } else { 1 }), "insert changes other keywords");
    let mut r = s.clone();
    let rem = r.remove(&k);
    check(rem == doc.get(&k).cloned(), "remove returns the wrong value");
    check(r.get(&k).is_none(), "removed keyword still there");
    check(r.as_object().map(|o| o.len()) == doc.as_object().map(|o| o.len() - rem.is_some() as usize), "remove changes other keywords");
    check(Schema::default() == json!({}), "the default schema is not {}");
    check(Schema::from(true) == json!(true) && Schema::from(false) == json!(false), "From<bool>");
    if let Value::Object(o) = &doc {
        check(Schema::from(o.clone()) == doc, "From<Map>");
    }
    let rf = Schema::new_ref(k.clone());
    check(rf == json!({"$ref": k}), "new_ref");
    observe_value(i.as_value());
    reach(1);
}

// ------------------------------------------------------------------------------------------ C17
#[cfg(feature = "c17")]
static mut INNER: Option<(Value, bool)> = None;
#[cfg(feature = "c17")]
struct Sym;
#[cfg(feature = "c17")]
impl JsonSchema for Sym {
    fn schema_name() -> Cow<'static, str> {
        "Sym".into()
    }
    fn inline_schema() -> bool {
        unsafe { (*std::ptr::addr_of!(INNER)).as_ref().unwrap().1 }
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        let v = unsafe { (*std::ptr::addr_of!(INNER)).as_ref().unwrap().0.clone() };
        match Schema::try_from(v) {
            Ok(s) => s,
            Err(_) => fail("Schema::try_from rejects an object or boolean"),
        }
    }
}
#[cfg(feature = "c17")]
fn in_place(m: &mut Map<String, Value>) {
    let part = || {
        one_of(&[
            &|| json!({"type": "integer"}),
            &|| json!({"type": "null"}),
            &|| json!({"type": "null", "title": "N"}),
            &|| json!({"type": ["integer", "null"]}),
            &|| json!({"const": "s"}),
            &|| json!({"const": null}),
            &|| json!({"enum": [1, null]}),
            &|| json!({"anyOf": [{"type": "integer"}, {"const": "s"}]}),
            &|| json!({"anyOf": [{"type": "integer"}, {"type": "null"}]}),
            &|| json!({"oneOf": [{"type": "null"}]}),
            &|| json!({"not": {"type": "null"}}),
            &|| json!({"$ref": "#/$defs/Other"}),
            &|| json!({"$ref": "#/$defs/Nullable"}),
            &|| json!(true),
        ])
    };
    match choose(8) {
        0 => {}
        1 => {
            let v = if m.is_empty() {
                let mut v = vec![part()];
                if cflag() {
                    v.push(part());
                }
                Value::Array(v)
            } else {
                json!([{"type": "integer"}, {"type": "null"}])
            };
            m.insert("anyOf".into(), v);
        }
        2 => {
            m.insert("oneOf".into(), json!([{"const": 1}, {"type": "null"}]));
        }
        3 => {
            m.insert("allOf".into(), json!([{"type": ["integer", "string"]}]));
        }
        4 => {
            m.insert("$ref".into(), json!(if !m.is_empty() || cflag() { "#/$defs/Other" } else { "#/$defs/Nullable" }));
        }
        5 => {
            m.insert("if".into(), json!({"type": "null"}));
            m.insert("then".into(), json!({"const": 1}));
            m.insert("else".into(), json!({"type": "string"}));
        }
        6 => {
            m.insert("not".into(), one_of(&[&|| json!({"type": "null"}), &|| json!({}), &|| json!(true), &|| json!({"const": 3})]));
        }
        _ => {
            m.insert("anyOf".into(), json!([{"type": ["integer", "null"]}, {"const": "s"}]));
        }
    }
}
#[cfg(feature = "c17")]
fn t_schema() -> Value {
    let mut m = Map::new();
    match choose(6) {
        0 => {}
        1 => {
            m.insert("type".into(), json!("string"));
        }
        2 => {
            m.insert("type".into(), json!("null"));
        }
        3 => {
            m.insert("type".into(), json!(["integer", "null"]));
        }
        4 => {
            m.insert("type".into(), json!(["string", "integer"]));
        }
        _ => return boolv(),
    }
    let val = || match choose(4) {
        0 => Value::Null,
        1 => json!("s"),
        2 => small_int(),
        _ => boolv(),
    };
    match choose(5) {
        0 => {}
        1 => {
            m.insert("const".into(), val());
        }
        2 => {
            m.insert("enum".into(), json!([val()]));
        }
        3 => {
            let v = if cflag() { json!("s") } else { small_int() };
            m.insert("enum".into(), if cflag() { json!([v, "x"]) } else { json!(["x", null, v]) });
            m.insert("const".into(), v);
        }
        _ => {
            m.insert("enum".into(), json!([val(), "x"]));
        }
    }
    if cflag() {
        m.insert("minimum".into(), json!(3));
        m.insert("title".into(), json!("t"));
    }
    in_place(&mut m);
    Value::Object(m)
}
#[cfg(feature = "c17")]
fn opt_check<O: JsonSchema>(depth_note: &'static str) {
    let t = t_schema();
    let inline = cflag();
    unsafe { INNER = Some((t.clone(), inline)) };
    let mut gen = SchemaSettings::default().into_generator();
    let s = gen.subschema_for::<O>();
    let mut defs = gen.take_definitions(false);
    defs.insert("Other".into(), json!({"type": "integer", "maximum": 100}));
    defs.insert("Nullable".into(), json!({"type": ["integer", "null"]}));
    let mut root = s.clone().to_value();
    let _ = depth_note;
    let inst = match choose(5) {
        0 => Value::Null,
        1 => strv(1),
        2 => small_int(),
        3 => boolv(),
        _ => json!([]),
    };
    let mut troot = t.clone();
    if let Value::Object(m) = &mut troot {
        m.insert("$defs".into(), Value::Object(defs.clone()));
    }
    if let Value::Object(m) = &mut root {
        m.insert("$defs".into(), Value::Object(defs));
    }
    let (vt, vo) = (V::new(&troot, Dialect::D2020), V::new(&root, Dialect::D2020));
    let (a, b) = (vt.ok(&inst), vo.ok(&inst));
    explain!("T {troot}\nOption<T> {root}\ninstance {inst}: T {a} Option<T> {b}");
    observe_value(&root);
    check(!vo.dangling.get() && !vo.malformed.get(), "malformed Option schema");
    check(b == (inst.is_null() | a), "Option<T> does not accept exactly null and what T accepts");
    reach(if a { 1 } else if b { 2 } else { 3 });
}
#[cfg(feature = "c17")]
pub fn option_one() {
    opt_check::<Option<Sym>>("");
}
#[cfg(feature = "c17")]
pub fn option_two() {
    opt_check::<Option<Option<Sym>>>("");
}
#[cfg(feature = "c17")]
pub fn option_box() {
    opt_check::<Option<Box<Option<Sym>>>>("");
}
