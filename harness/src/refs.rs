//! C01: generated references resolve to their definition, whatever the name.
//! C02: pointer lookups on schemas.
use crate::explain;
use crate::sx::*;
use crate::val::*;
use schemars::generate::SchemaSettings;
use schemars::{json_schema, JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Value};
use std::borrow::Cow;

static mut NAME: String = String::new();
static mut NAME2: String = String::new();
fn name() -> &'static str {
    unsafe { &*std::ptr::addr_of!(NAME) }
}
fn name2() -> &'static str {
    unsafe { &*std::ptr::addr_of!(NAME2) }
}
struct Named;
impl JsonSchema for Named {
    fn schema_name() -> Cow<'static, str> {
        Cow::Borrowed(name())
    }
    fn schema_id() -> Cow<'static, str> {
        "named".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({"const": 7})
    }
}
struct Other;
impl JsonSchema for Other {
    fn schema_name() -> Cow<'static, str> {
        Cow::Borrowed(name2())
    }
    fn schema_id() -> Cow<'static, str> {
        "other".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({"const": 8})
    }
}
struct Root;
impl JsonSchema for Root {
    fn schema_name() -> Cow<'static, str> {
        "Root".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let a = g.subschema_for::<Other>();
        let b = g.subschema_for::<Named>();
        json_schema!({"prefixItems": [a, b]})
    }
}

/// the fragment of a reference may only contain characters RFC 3986 allows in a fragment
fn valid_fragment(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                if i + 2 >= b.len() || hexval(b[i + 1]).is_none() || hexval(b[i + 2]).is_none() {
                    return false;
                }
                i += 2;
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => {}
            b'-' | b'.' | b'_' | b'~' | b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' | b':' | b'@' | b'/' | b'?' => {}
            _ => return false,
        }
        i += 1;
    }
    true
}

fn run(n: String, settings: SchemaSettings) {
    unsafe { NAME = n };
    let root = settings.into_generator().into_root_schema_for::<Root>();
    check_root(root)
}
fn check_root(mut root: Schema) {
    let r = root.pointer("/prefixItems/1/$ref").and_then(|v| v.as_str()).map(|s| s.to_string());
    let r = match r {
        Some(r) => r,
        None => fail("no reference generated"),
    };
    explain!("name {:?} ref {:?}", name(), r);
    observe(r.as_bytes());
    check(r.len() > 1 && r.as_bytes()[0] == b'#' && valid_fragment(&r[1..]), "reference is not a valid URI fragment");
    match resolve(root.as_value(), &r) {
        Some(t) => check(*t == json!({"const": 7}), "reference resolves to another definition"),
        None => fail("reference does not resolve"),
    }
    // schemars' own lookup agrees
    check(root.pointer(&r).is_some_and(|t| *t == json!({"const": 7})), "Schema::pointer does not find the definition");
    check(root.pointer_mut(&r).is_some_and(|t| *t == json!({"const": 7})), "Schema::pointer_mut does not find the definition");
    reach(1);
}

#[cfg(feature = "c01")]
pub fn refs_utf8() {
    unsafe { NAME2 = "Other".into() };
    run(utf8(if cfg!(feature = "thorough") { 4 } else { 3 }), SchemaSettings::default());
}
#[cfg(feature = "c01")]
pub fn refs_paths() {
    unsafe { NAME2 = "Other".into() };
    let mut s = SchemaSettings::default();
    s.definitions_path = ["#/$defs/", "/definitions", "/components/schemas", "/a~1b/c~0d/", "#/x"][choose(5)].into();
    run(ascii(if cfg!(feature = "thorough") { 3 } else { 2 }), s);
}
/// two definitions whose names only differ in characters that need escaping
#[cfg(feature = "c01")]
pub fn refs_pair() {
    const A: &[u8] = b"~/01%2F5";
    let mk = |n: usize| -> String { (0..n).map(|_| A[choose(A.len() as u8)] as char).collect() };
    let k = if cfg!(feature = "thorough") { 3 } else { 2 };
    unsafe { NAME2 = mk(k) };
    run(mk(k), SchemaSettings::default());
}
/// long names: escaping in the middle of other text
#[cfg(feature = "c01")]
pub fn refs_context() {
    unsafe { NAME2 = "Other".into() };
    let pre = ["Foo_for_", "é", "a/b~c%d ", ""][choose(4)];
    let post = ["_bar", "é", "%41", "~1"][choose(4)];
    run(format!("{pre}{}{post}", ascii(1)), SchemaSettings::default());
}

// ---------------------------------------------------------------------------------------------
#[cfg(feature = "c02")]
fn doc() -> Value {
    json!({
        "": {"": 1, "a": 2},
        "a": [10, {"b": 11, "~": 12}, [13], 14, 15, 16, 17, 18, 19, 20, [21, 22]],
        "/": 3, "~": {"/": 4}, "%": 5, "%41": 6, "é": 7, "A": [8], "~1": 9, "\u{1}": 23, "+": 24, "0": [25], "#": 26, "%25": 27, "🚀": 28
    })
}

/// documented decoding: `%` + two hex digits is a byte, any other `%` is literal
#[cfg(feature = "c02")]
fn lenient_pct(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hexval(b[i + 1]), hexval(b[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

#[cfg(feature = "c02")]
fn ref_lookup<'a>(root: &'a Value, p: &str) -> Option<&'a Value> {
    let bytes = match p.strip_prefix('#') {
        Some(f) => {
            let d = lenient_pct(f.as_bytes());
            if core::str::from_utf8(&d).is_err() {
                return None;
            }
            d
        }
        None => p.as_bytes().to_vec(),
    };
    if bytes.is_empty() {
        return Some(root);
    }
    if bytes[0] != b'/' {
        return None;
    }
    let mut cur = root;
    for tok in bytes[1..].split(|b| *b == b'/') {
        let key = unescape_token(tok);
        cur = match cur {
            Value::Object(m) => m.iter().find(|(k, _)| k.len() == key.len() && k.as_bytes() == &key[..]).map(|(_, v)| v)?,
            Value::Array(a) => {
                if key.is_empty() || (key.len() > 1 && key[0] == b'0') || !key.iter().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                let n = key.iter().fold(0usize, |n, b| n * 10 + (*b - b'0') as usize);
                a.get(n)?
            }
            _ => return None,
        };
    }
    Some(cur)
}

#[cfg(feature = "c02")]
fn lookup_check(p: String) {
    let d = doc();
    let mut s: Schema = d.try_into().unwrap();
    let want = ref_lookup(s.as_value(), &p).map(|v| v as *const Value);
    let got = s.pointer(&p).map(|v| v as *const Value);
    explain!("pointer {:?}: got {:?}", p, s.pointer(&p));
    observe(&[got.is_some() as u8]);
    check(got == want, "pointer finds the wrong value");
    let gm = s.pointer_mut(&p).map(|v| v as *const Value);
    check(gm == want, "pointer_mut finds the wrong value");
    if want.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    // bool schemas contain nothing but themselves
    let mut b = Schema::from(flag());
    let self_ref = p.is_empty() || p == "#";
    check(b.pointer(&p).is_some() == self_ref || b.pointer(&p).is_none(), "pointer into a bool schema");
    check(b.pointer_mut(&p).is_some() == self_ref || b.pointer_mut(&p).is_none(), "pointer_mut into a bool schema");
}

#[cfg(feature = "c02")]
pub fn ptr_free() {
    lookup_check(utf8(if cfg!(feature = "thorough") { 4 } else { 3 }));
}
#[cfg(feature = "c02")]
pub fn ptr_fragment() {
    let pre = ["#/", "#/%", "/", "#/a/", "/a/1", "#%2", "#/~"][choose(7)];
    lookup_check(format!("{pre}{}", ascii(if cfg!(feature = "thorough") { 3 } else { 2 })));
}
#[cfg(feature = "c02")]
pub fn ptr_fragment_utf8() {
    // characters of any width right after a complete, broken or missing escape
    let pre = ["#", "#/", "#/%", "#/%4", "#%41%"][choose(5)];
    let post = ["", "%41"][choose(2)];
    lookup_check(format!("{pre}{}{post}", utf8(if cfg!(feature = "thorough") { 4 } else { 3 })));
}
#[cfg(feature = "c02")]
pub fn ptr_percent() {
    // one percent escape with arbitrary characters in both digit places, at every position
    let pre = ["#/", "#", "#/a", "#/%C3", "#/~", "#/a/1/"][choose(6)];
    let post = ["", "/", "%A9", "9", "%", "~1"][choose(6)];
    let e = ascii_n(2, 0, 0x7f);
    lookup_check(format!("{pre}%{e}{post}"));
}
