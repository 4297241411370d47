//! C25: validation attributes.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use crate::val::{num_cmp, Dialect, V};
use std::cmp::Ordering;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::collections::*;

const THOROUGH: bool = cfg!(feature = "thorough");
static mut LO: u8 = 0;
static mut HI: u8 = 0;
static mut SUB: String = String::new();
static mut TYPES: Vec<&'static str> = Vec::new();
static mut TYPE_LIST: bool = false;
pub fn lo() -> u8 {
    unsafe { LO }
}
pub fn hi() -> u8 {
    unsafe { HI }
}
pub fn sub() -> &'static str {
    unsafe { &*std::ptr::addr_of!(SUB) }
}
fn types() -> &'static [&'static str] {
    unsafe { &*std::ptr::addr_of!(TYPES) }
}
/// a field whose schema allows any choice of types
pub fn any_types(_: &mut SchemaGenerator) -> Schema {
    let t = types();
    if t.is_empty() {
        json_schema!({ "description": "d" })
    } else if unsafe { TYPE_LIST } {
        json_schema!({ "type": t })
    } else {
        json_schema!({ "type": t[0] })
    }
}

pub struct Form {
    form: &'static str,
    with: fn() -> Value,
    without: fn() -> Value,
    wrap: fn(Value) -> Value,
}
pub struct Case {
    name: &'static str,
    forms: Vec<Form>,
    rule: fn(&Value) -> bool,
    gen: fn() -> Value,
}
fn schema_of<T: JsonSchema>() -> Value {
    SchemaSettings::default().into_generator().into_root_schema_for::<T>().to_value()
}
macro_rules! form {
    ($form:literal, $v:ident => $wrap:tt, { $($with:tt)* } { $($without:tt)* }) => {{
        #[allow(dead_code)]
        fn with() -> Value {
            $($with)*
            schema_of::<X>()
        }
        #[allow(dead_code)]
        fn without() -> Value {
            $($without)*
            schema_of::<X>()
        }
        Form { form: $form, with, without, wrap: |$v| json!($wrap) }
    }};
}
macro_rules! case {
    (all $t:ty, [$(#[$a:meta])*], $gen:expr, $rule:expr) => {
        Case { name: stringify!($t, $(#[$a])*), gen: $gen, rule: $rule, forms: vec![
            form!("struct field", v => {"f": v}, { #[derive(JsonSchema)] struct X { $(#[$a])* f: $t } } { #[derive(JsonSchema)] struct X { f: $t } }),
            form!("newtype", v => v, { #[derive(JsonSchema)] struct X($(#[$a])* $t); } { #[derive(JsonSchema)] struct X($t); }),
            form!("transparent", v => v, { #[derive(JsonSchema)] #[serde(transparent)] struct X { $(#[$a])* f: $t } } { #[derive(JsonSchema)] #[serde(transparent)] struct X { f: $t } }),
            form!("tuple struct", v => [1, v], { #[derive(JsonSchema)] struct X(u8, $(#[$a])* $t); } { #[derive(JsonSchema)] struct X(u8, $t); }),
            form!("newtype variant", v => {"A": v}, { #[derive(JsonSchema)] enum X { A($(#[$a])* $t), B } } { #[derive(JsonSchema)] enum X { A($t), B } }),
            form!("tuple variant", v => {"A": [v, 1]}, { #[derive(JsonSchema)] enum X { A($(#[$a])* $t, u8), B } } { #[derive(JsonSchema)] enum X { A($t, u8), B } }),
            form!("struct variant", v => {"A": {"f": v}}, { #[derive(JsonSchema)] enum X { A { $(#[$a])* f: $t }, B } } { #[derive(JsonSchema)] enum X { A { f: $t }, B } }),
            form!("internally tagged struct variant", v => {"t": "A", "f": v}, { #[derive(JsonSchema)] #[serde(tag = "t")] enum X { A { $(#[$a])* f: $t }, B } } { #[derive(JsonSchema)] #[serde(tag = "t")] enum X { A { f: $t }, B } }),
            form!("adjacently tagged newtype variant", v => {"t": "A", "c": v}, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] enum X { A($(#[$a])* $t), B } } { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] enum X { A($t), B } }),
            form!("adjacently tagged struct variant", v => {"t": "A", "c": {"f": v}}, { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] enum X { A { $(#[$a])* f: $t }, B } } { #[derive(JsonSchema)] #[serde(tag = "t", content = "c")] enum X { A { f: $t }, B } }),
            form!("untagged newtype variant", v => {"w": v}, { #[derive(JsonSchema)] #[serde(untagged)] enum Y { A($(#[$a])* $t) } #[derive(JsonSchema)] struct X { w: Y } } { #[derive(JsonSchema)] #[serde(untagged)] enum Y { A($t) } #[derive(JsonSchema)] struct X { w: Y } }),
            form!("untagged tuple variant", v => [v, 1], { #[derive(JsonSchema)] #[serde(untagged)] enum X { A($(#[$a])* $t, u8), B } } { #[derive(JsonSchema)] #[serde(untagged)] enum X { A($t, u8), B } }),
            form!("variant untagged by itself", v => [v, 1], { #[derive(JsonSchema)] enum X { C, #[serde(untagged)] A($(#[$a])* $t, u8) } } { #[derive(JsonSchema)] enum X { C, #[serde(untagged)] A($t, u8) } }),
            form!("flattened struct", v => {"f": v, "g": 1}, { #[derive(JsonSchema)] struct Y { $(#[$a])* f: $t } #[derive(JsonSchema)] struct X { g: u8, #[serde(flatten)] y: Y } } { #[derive(JsonSchema)] struct Y { f: $t } #[derive(JsonSchema)] struct X { g: u8, #[serde(flatten)] y: Y } }),
            form!("field of a generic type", v => {"f": v}, { #[derive(JsonSchema)] struct Y<T> { $(#[$a])* f: T } type X = Y<$t>; } { #[derive(JsonSchema)] struct Y<T> { f: T } type X = Y<$t>; }),
            form!("documented, deprecated, renamed field", v => {"n": v}, { #[derive(JsonSchema)] struct X { #[doc = "x"] #[deprecated] #[schemars(rename = "n", title = "t", example = 1, extend("x-a" = 1))] $(#[$a])* f: $t } } { #[derive(JsonSchema)] struct X { #[schemars(rename = "n")] f: $t } }),
        ] }
    };
    (over $t:ty, [$(#[$b:meta])*], [$(#[$a:meta])*], $gen:expr, $rule:expr) => {
        Case { name: stringify!($t, $(#[$b])*, $(#[$a])*), gen: $gen, rule: $rule, forms: vec![
            form!("struct field", v => {"f": v}, { #[derive(JsonSchema)] struct X { $(#[$b])* $(#[$a])* f: $t } } { #[derive(JsonSchema)] struct X { $(#[$b])* f: $t } }),
            form!("newtype", v => v, { #[derive(JsonSchema)] struct X($(#[$b])* $(#[$a])* $t); } { #[derive(JsonSchema)] struct X($(#[$b])* $t); }),
        ] }
    };
    ($t:ty, [$(#[$a:meta])*], $gen:expr, $rule:expr) => { case!(over $t, [], [$(#[$a])*], $gen, $rule) };
}

fn chars(v: &Value) -> Option<u64> {
    v.as_str().map(|s| s.bytes().filter(|b| b & 0xc0 != 0x80).count() as u64)
}
fn items(v: &Value) -> Option<u64> {
    v.as_array().map(|a| a.len() as u64)
}
fn at_least(n: Option<u64>) -> bool {
    n.is_none_or(|n| n >= lo() as u64)
}
fn at_most(n: Option<u64>) -> bool {
    n.is_none_or(|n| n <= hi() as u64)
}
fn equal(n: Option<u64>) -> bool {
    n.is_none_or(|n| n == lo() as u64)
}
fn ge(v: &Value, n: i64) -> bool {
    num_cmp(v, &Value::from(n)).is_none_or(|o| o != Ordering::Less)
}
fn le(v: &Value, n: i64) -> bool {
    num_cmp(v, &Value::from(n)).is_none_or(|o| o != Ordering::Greater)
}
fn lower(v: &Value) -> bool {
    !v.is_number() || ge(v, lo() as i64)
}
fn upper(v: &Value) -> bool {
    !v.is_number() || le(v, hi() as i64)
}
fn within(v: &Value) -> bool {
    lower(v) && upper(v)
}
fn has_sub(v: &Value) -> bool {
    let Some(s) = v.as_str() else { return true };
    let (s, n) = (s.as_bytes(), sub().as_bytes());
    n.is_empty() || s.windows(n.len()).any(|w| w == n)
}
fn all(v: &Value, f: fn(&Value) -> bool) -> bool {
    v.as_array().is_none_or(|a| a.iter().all(f))
}
fn starts(v: &Value, c: char) -> bool {
    v.as_str().is_none_or(|s| s.starts_with(c))
}

fn g_str() -> Value {
    match choose(4) {
        0 => Value::Null,
        1 => json!([1]),
        _ => Value::String(utf8(3)),
    }
}
fn g_num() -> Value {
    match choose(5) {
        0 => Value::Null,
        1 => strv(1),
        2 => json!([0.0, 1.5, -0.25, 254.25, 254.5, 1e300][choose(6)]),
        3 => json!([-1000i64, 1000, i64::MIN, i64::MAX][choose(4)]),
        _ => small_int(),
    }
}
fn up_to(n: u8, g: fn() -> Value) -> Value {
    array(n, &|| g())
}
fn ints() -> Value {
    if cflag() { up_to(3, || Value::from(byte(0, 255))) } else { scalar_any() }
}
fn strs() -> Value {
    match choose(3) {
        0 => scalar_any(),
        1 => json!([Value::String(utf8(2)), Value::Null]),
        _ => up_to(2, || Value::String(utf8(2))),
    }
}
fn nested() -> Value {
    up_to(2, || up_to(2, small_int))
}
fn mapv() -> Value {
    let mut m = Map::new();
    for i in 0..choose(3) {
        m.insert(["a", "b"][i].to_string(), Value::from(byte(0, 255)));
    }
    Value::Object(m)
}
fn any() -> Value {
    match choose(5) {
        0 => scalar_any(),
        1 => Value::String(utf8(2)),
        2 => small_int(),
        3 => json!(2.5),
        _ => up_to(2, small_int),
    }
}

/// the attributes that matter in every position
fn everywhere() -> Vec<Case> {
    vec![
        case!(all String, [#[schemars(length(min = lo(), max = hi()))]], g_str, |v| at_least(chars(v)) && at_most(chars(v))),
        case!(all Option<Vec<u8>>, [#[schemars(length(min = lo(), max = hi()))]], ints, |v| at_least(items(v)) && at_most(items(v))),
        case!(all i32, [#[schemars(range(min = lo(), max = hi()))]], g_num, within),
        case!(all Vec<String>, [#[schemars(inner(length(min = lo())))]], strs, |v| all(v, |v| at_least(chars(v)))),
        case!(all Box<str>, [#[schemars(regex(pattern = "^a"), email)]], g_str, |v| starts(v, 'a')),
        case!(all u16, [#[schemars(range(max = hi()))]], g_num, upper),
        case!(all String, [#[schemars(contains("a.b"))]], || Value::String(ascii(3)), |v| v.as_str().is_none_or(|s| s.contains("a.b"))),
    ]
}
fn each() -> Vec<Case> {
    vec![
        // length
        case!(Option<String>, [#[schemars(length(min = lo()))]], g_str, |v| at_least(chars(v))),
        case!(Option<String>, [#[schemars(length(max = hi()))]], g_str, |v| at_most(chars(v))),
        case!(Option<String>, [#[schemars(length(equal = lo()))]], g_str, |v| equal(chars(v))),
        case!(Vec<u8>, [#[schemars(length(equal = lo()))]], ints, |v| equal(items(v))),
        case!(Vec<u8>, [#[validate(length(min = "lo()"))]], ints, |v| at_least(items(v))),
        case!(BTreeSet<u8>, [#[garde(length(max = hi()))]], ints, |v| at_most(items(v))),
        case!(Box<[u8]>, [#[validate(length(min = 1, message = "m", code = "c"))]], ints, |v| items(v).is_none_or(|n| n >= 1)),
        case!(BTreeMap<String, u8>, [#[schemars(length(min = 1))]], mapv, |_| true),
        case!(i32, [#[schemars(length(min = 1))]], g_num, |_| true),
        case!(String, [#[validate(length(min = 200))] #[schemars(length(min = lo()))] #[garde(length(max = 0))]], g_str, |v| at_least(chars(v))),
        case!(String, [#[garde(length(max = hi()), skip, ascii)] #[validate(custom(function = "x"), must_match(other = "y"))]], g_str, |v| at_most(chars(v))),
        // range
        case!(f64, [#[schemars(range(min = lo(), max = hi()))]], g_num, within),
        case!(Option<i64>, [#[validate(range(min = 0, max = "hi()"))]], g_num, |v| !v.is_number() || ge(v, 0) && upper(v)),
        case!(f32, [#[garde(range(min = -0.25, max = 254.25))]], g_num, |v| !v.is_number() || ge(v, 0) && le(v, 254) || *v == -0.25 || *v == 254.25),
        case!(Option<i8>, [#[schemars(range(min = lo()))]], g_num, lower),
        case!(String, [#[schemars(range(min = 1))]], g_str, |_| true),
        case!(bool, [#[schemars(range(min = 1), length(min = 1), contains("x"))]], any, |_| true),
        // pattern
        case!(Option<String>, [#[schemars(pattern("^a"))]], g_str, |v| starts(v, 'a')),
        case!(String, [#[garde(pattern("^a"))]], g_str, |v| starts(v, 'a')),
        case!(String, [#[validate(regex(path = "A", message = "m"))]], g_str, |v| starts(v, 'a')),
        case!(String, [#[validate(regex(path = *PATH))]], g_str, |v| starts(v, 'a')),
        case!(String, [#[schemars(regex(pattern = format!("^{}", 'a')))]], g_str, |v| starts(v, 'a')),
        case!(Vec<u8>, [#[schemars(pattern("^a"))]], ints, |_| true),
        case!(String, [#[validate(contains(pattern = "x"))] #[schemars(pattern("^a"))]], g_str, |v| starts(v, 'a')),
        // required
        // formats
        case!(String, [#[schemars(url)] #[validate(email)]], g_str, |_| true),
        case!(String, [#[garde(ipv4)]], g_str, |_| true),
        // inner
        case!(Option<Vec<String>>, [#[garde(inner(length(min = lo(), max = hi())))]], strs, |v| all(v, |v| at_least(chars(v)) && at_most(chars(v)))),
        case!(Vec<Option<String>>, [#[schemars(inner(pattern("^a"), length(max = hi())))]], strs, |v| all(v, |v| starts(v, 'a') && at_most(chars(v)))),
        case!([String; 2], [#[schemars(inner(length(min = lo())))]], strs, |v| all(v, |v| at_least(chars(v)))),
        case!(Vec<Vec<i32>>, [#[schemars(inner(inner(range(min = lo(), max = hi()))), length(max = 1))]], nested, |v| items(v).is_none_or(|n| n <= 1) && all(v, |v| all(v, within))),
        case!(Vec<Vec<i32>>, [#[schemars(inner(length(max = 1), inner(range(min = lo()))))]], nested, |v| all(v, |v| items(v).is_none_or(|n| n <= 1) && all(v, lower))),
        case!(BTreeSet<i64>, [#[schemars(inner(range(min = lo())))]], nested, |v| all(v, lower)),
        case!(String, [#[schemars(inner(length(min = 1)))]], g_str, |_| true),
        case!((u8, String), [#[schemars(inner(length(min = 1)), length(max = 2))]], strs, |_| true),
        case!(Vec<String>, [#[garde(inner(length(min = 9)))] #[schemars(inner(length(min = lo())))]], strs, |v| all(v, |v| at_least(chars(v)))),
        // contains
        case!(Option<String>, [#[schemars(contains(pattern = "^|("))]], || Value::String(ascii(3)), |v| v.as_str().is_none_or(|s| s.contains("^|("))),
        case!(String, [#[garde(contains("^"))]], || Value::String(ascii(2)), |v| v.as_str().is_none_or(|s| s.contains('^'))),
        case!(String, [#[validate(contains(pattern = "[", message = "m"))]], || Value::String(ascii(2)), |v| v.as_str().is_none_or(|s| s.contains('['))),
        case!(Option<Vec<String>>, [#[schemars(inner(contains("?")))]], strs, |v| all(v, |v| v.as_str().is_none_or(|s| s.contains('?')))),
    ]
}
const A: &str = "^a";
const PATH: &&str = &"^a";

fn bounds() {
    unsafe {
        LO = byte(0, 255);
        HI = byte(0, 255);
    }
}
fn compare(cases: Vec<Case>) {
    let c = &cases[choose(cases.len() as u8)];
    let f = &c.forms[choose(c.forms.len() as u8)];
    bounds();
    let v = (c.gen)();
    judge(c.name, f, &v, c.rule);
}
fn judge(_name: &str, f: &Form, v: &Value, rule: fn(&Value) -> bool) {
    let (with, without) = ((f.with)(), (f.without)());
    let doc = (f.wrap)(v.clone());
    let plain = V::new(&without, Dialect::D2020).ok(&doc);
    let val = V::new(&with, Dialect::D2020);
    let ok = val.ok(&doc);
    explain!("{_name}: {}\nwith the attribute {with}\nwithout {without}\nlo {} hi {} document {doc}: with {ok}, without {plain}", f.form, lo(), hi());
    observe(&[ok as u8, plain as u8]);
    check(!val.dangling.get() && !val.malformed.get(), "dangling reference or malformed keyword");
    check(plain || !ok, "an attribute makes a schema accept more");
    check(!ok || rule(v), "a value that breaks the attribute's rule is accepted");
    check(ok || !plain || !rule(v), "a value that follows the attribute's rule is rejected");
    reach(if ok { 1 } else { 2 });
}
pub fn valid_everywhere() {
    compare(everywhere())
}
pub fn valid_each() {
    compare(each())
}
/// a substring of any content: found exactly in the strings that contain it, and written in the
/// subset of regular expression syntax that every JSON Schema implementation reads the same way
pub fn valid_contains() {
    let c = case!(Option<String>, [#[schemars(contains(sub()))]], g_str, has_sub);
    unsafe { SUB = utf8(if THOROUGH { 4 } else { 3 }) };
    let s = sub().to_string();
    let v = match choose(4) {
        0 => Value::String(utf8(if THOROUGH { 4 } else { 3 })),
        1 => Value::String(format!("{}{s}{}", ascii(1), ascii(1))),
        2 => Value::String(s.chars().rev().collect()),
        _ => Value::Null,
    };
    let f = &c.forms[choose(2)];
    let with = (f.with)();
    let p = with.pointer("/properties/f/pattern").or(with.get("pattern")).and_then(Value::as_str).unwrap_or("").as_bytes();
    let mut i = 0;
    let mut portable = true;
    while i < p.len() {
        if p[i] == b'\\' {
            i += 1;
            // the only identity escapes of ECMA-262 with the u flag
            portable &= i < p.len() && matches!(p[i], b'^' | b'$' | b'\\' | b'.' | b'*' | b'+' | b'?' | b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'|' | b'/');
        }
        i += 1;
    }
    explain!("{s:?}: {with}");
    check(portable, "a pattern with an escape that is an error in ECMA-262 unicode mode");
    judge(c.name, f, &v, c.rule);
}
/// attributes on a field whose schema lists any types
pub fn valid_types() {
    const ALL: [&str; 7] = ["null", "boolean", "integer", "number", "string", "array", "object"];
    let mut t = vec![];
    for _ in 0..choose(if THOROUGH { 4 } else { 3 }) {
        let x = ALL[choose(7)];
        assume(!t.contains(&x));
        t.push(x);
    }
    unsafe {
        TYPE_LIST = t.len() > 1 || cflag();
        TYPES = t;
    }
    let cases = vec![
        case!(over u8, [#[schemars(schema_with = "any_types")]], [#[schemars(length(min = lo(), max = hi()))]], any, |v| (!has("string") || at_least(chars(v)) && at_most(chars(v))) && (!has("array") || at_least(items(v)) && at_most(items(v)))),
        case!(over u8, [#[schemars(schema_with = "any_types")]], [#[schemars(range(min = lo(), max = hi()))]], any, |v| !(has("number") || has("integer")) || within(v)),
        case!(over u8, [#[schemars(schema_with = "any_types")]], [#[schemars(contains("a"))]], any, |v| !has("string") || v.as_str().is_none_or(|s| s.contains('a'))),
    ];
    compare(cases)
}
fn has(t: &str) -> bool {
    types().contains(&t)
}

macro_rules! req {
    ($t:ty, [$($f:tt)*], [$($a:tt)*], $gen:expr, $rule:expr) => {
        (case!(over Option<$t>, [$($f)*], [#[$($a)*]], $gen, $rule), {
            #[derive(JsonSchema)]
            #[allow(dead_code)]
            struct X {
                $($f)*
                f: $t,
            }
            schema_of::<X> as fn() -> Value
        })
    };
}
#[derive(JsonSchema)]
#[allow(dead_code)]
struct Inner {
    x: u8,
}
/// `required`: as though the field were not an Option
pub fn valid_required() {
    let cases: Vec<(Case, fn() -> Value)> = vec![
        req!(String, [], [schemars(required)], g_str, |_| true),
        req!(i32, [], [validate(required)], g_num, |_| true),
        req!(u8, [], [garde(required)], g_num, |_| true),
        req!(Vec<u8>, [], [schemars(required, length(min = lo()))], ints, |v| at_least(items(v))),
        req!(Inner, [], [schemars(required)], || if cflag() { json!({"x": small_int()}) } else { scalar_any() }, |_| true),
        req!(Value, [], [schemars(required)], scalar_any, |_| true),
        req!(Box<Inner>, [#[schemars(rename = "f")]], [schemars(required)], || if cflag() { json!({"x": small_int()}) } else { scalar_any() }, |_| true),
    ];
    let (c, plain) = &cases[choose(cases.len() as u8)];
    bounds();
    let v = (c.gen)();
    let doc = if cflag() { json!({ "f": v }) } else { json!({}) };
    let (with, without) = ((c.forms[0].with)(), plain());
    let val = V::new(&with, Dialect::D2020);
    let (a, b) = (val.ok(&doc), V::new(&without, Dialect::D2020).ok(&doc));
    explain!("{}: {with}\nnot an Option: {without}\n{doc}", c.name);
    observe(&[a as u8, b as u8]);
    check(!val.dangling.get() && !val.malformed.get(), "dangling reference or malformed keyword");
    let rule = doc.get("f").is_none_or(c.rule);
    check(a == (b && rule), "a required field is not described as though it were not an Option");
    reach(if a { 1 } else { 2 });
}

macro_rules! formats {
    ($($t:ty, [$($a:tt)*], $ptr:literal, $f:literal;)*) => {
        vec![$( { #[derive(JsonSchema)] #[allow(dead_code)] struct X { $($a)* f: $t } (stringify!($t $($a)*), schema_of::<X>(), $ptr, $f) } ),*]
    };
}
pub fn valid_formats() {
    let all = formats![
        String, [#[schemars(email)]], "", "email"; String, [#[validate(email)]], "", "email"; String, [#[garde(email)]], "", "email";
        Option<String>, [#[schemars(url)]], "", "uri"; String, [#[validate(url(message = "m"))]], "", "uri"; String, [#[garde(url)]], "", "uri";
        String, [#[schemars(ip)]], "", "ip"; String, [#[garde(ip)]], "", "ip"; String, [#[schemars(ipv4)]], "", "ipv4"; String, [#[garde(ipv4)]], "", "ipv4";
        Box<str>, [#[schemars(ipv6)]], "", "ipv6"; String, [#[garde(ipv6)]], "", "ipv6"; String, [#[validate(url)] #[schemars(email)]], "", "email";
        Vec<String>, [#[schemars(inner(email))]], "/items", "email"; Vec<Vec<String>>, [#[garde(inner(inner(url)))]], "/items/items", "uri";
    ];
    let (_name, s, ptr, f) = &all[choose(all.len() as u8)];
    explain!("{_name}: {s}");
    let at = s.pointer(&format!("/properties/f{ptr}/format"));
    observe(&[at.is_some() as u8]);
    check(at.and_then(Value::as_str) == Some(f), "the format attribute does not set the format");
    reach(1);
}
