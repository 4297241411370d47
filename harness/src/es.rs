//! C24: schemas inferred from an example value.
use crate::explain;
use crate::sx::*;
use crate::val::{resolve, Dialect, V};
use crate::wf::wf;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_json::{Map, Value};
use std::collections::BTreeMap;

const THOROUGH: bool = cfg!(feature = "thorough");

/// a value that makes an arbitrary sequence of serializer calls
pub enum N {
    Bool(bool),
    Int(u8, u8),
    Float(f64),
    Char(char),
    Str(String),
    Shown(String),
    Bytes(Vec<u8>),
    Nothing,
    Some(Box<N>),
    Unit,
    UnitStruct,
    UnitVariant,
    NewStruct(&'static str, Box<N>),
    NewVariant(Box<N>),
    Seq(bool, Vec<N>),
    Tuple(Vec<N>),
    TupleStruct(&'static str, Vec<N>),
    TupleVariant(Vec<N>),
    Map(Vec<(K, N)>),
    Collected(Vec<(K, N)>),
    Struct(&'static str, Vec<(&'static str, N)>),
    StructVariant(Vec<(&'static str, N)>),
    Raw(Box<serde_json::value::RawValue>),
    Fails,
}
pub enum K {
    Str(String),
    Wide(u128),
    Int(i64),
    Bool(bool),
    Char(char),
    Float(f64),
    Variant,
    Wrapped(String),
}
impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            K::Str(x) => s.serialize_str(x),
            K::Wide(x) => s.serialize_u128(*x),
            K::Int(x) => s.serialize_i64(*x),
            K::Bool(x) => s.serialize_bool(*x),
            K::Char(x) => s.serialize_char(*x),
            K::Float(x) => s.serialize_f64(*x),
            K::Variant => s.serialize_unit_variant("E", 0, "V\""),
            K::Wrapped(x) => s.serialize_newtype_struct("W", x),
        }
    }
}
impl Serialize for N {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            N::Bool(b) => s.serialize_bool(*b),
            N::Int(k, x) => match k {
                0 => s.serialize_i8(*x as i8),
                1 => s.serialize_i16(*x as i16),
                2 => s.serialize_i32(-(*x as i32)),
                3 => s.serialize_i64(*x as i64),
                4 => s.serialize_u8(*x),
                5 => s.serialize_u16(*x as u16),
                6 => s.serialize_u32(*x as u32),
                7 => s.serialize_u64(u64::MAX - *x as u64),
                8 => s.serialize_i128(*x as i128),
                9 => s.serialize_u128(*x as u128),
                _ => s.serialize_u128(u128::MAX), // does not fit: serde_json has no such value
            },
            N::Float(x) => s.serialize_f64(*x),
            N::Char(c) => s.serialize_char(*c),
            N::Str(x) => s.serialize_str(x),
            N::Shown(x) => s.collect_str(x),
            N::Bytes(x) => s.serialize_bytes(x),
            N::Nothing => s.serialize_none(),
            N::Some(x) => s.serialize_some(&**x),
            N::Unit => s.serialize_unit(),
            N::UnitStruct => s.serialize_unit_struct("U"),
            N::UnitVariant => s.serialize_unit_variant("E", 0, "A"),
            N::NewStruct(n, x) => s.serialize_newtype_struct(n, &**x),
            N::NewVariant(x) => s.serialize_newtype_variant("E", 1, "B", &**x),
            N::Seq(known, xs) => {
                if *known {
                    return s.collect_seq(xs.iter());
                }
                let mut q = s.serialize_seq(None)?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            N::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            N::TupleStruct(n, xs) => {
                let mut q = s.serialize_tuple_struct(n, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            N::TupleVariant(xs) => {
                let mut q = s.serialize_tuple_variant("E", 2, "C", xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            N::Map(xs) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in xs {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            N::Collected(xs) => s.collect_map(xs.iter().map(|(k, v)| (k, v))),
            N::Struct(n, xs) => {
                let mut q = s.serialize_struct(n, xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            N::StructVariant(xs) => {
                let mut q = s.serialize_struct_variant("E", 3, "D", xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            N::Raw(x) => x.serialize(s),
            N::Fails => Err(ser::Error::custom("no")),
        }
    }
}

fn ch() -> char {
    char::from(byte(0, 0x7f))
}
fn float() -> f64 {
    [0.0, -1.5, 3.0, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose(7)]
}
fn raw() -> Box<serde_json::value::RawValue> {
    serde_json::value::RawValue::from_string(["1", "[null]", "{\"a\":\"b\"}", "null"][choose(4)].to_string()).unwrap()
}
fn key() -> K {
    match choose(8) {
        0 => K::Str(utf8(2)),
        1 => K::Wide([0, u64::MAX as u128 + 1, u128::MAX][choose(3)]),
        2 => K::Int([0, -3, i64::MIN][choose(3)]),
        3 => K::Bool(flag()),
        4 => K::Char(ch()),
        5 => K::Float([0.5, 1e300, f64::NAN][choose(3)]),
        6 => K::Variant,
        _ => K::Wrapped(ascii_n(1, 0, 0x7f)),
    }
}
fn leaf(rich: bool) -> N {
    if !rich {
        return match choose(6) {
            0 => N::Int(2, byte(0, 255)),
            1 => N::Str(ascii_n(1, 0, 0x7f)),
            2 => N::Float(f64::NAN),
            3 => N::Nothing,
            4 => N::UnitStruct,
            _ => N::UnitVariant,
        };
    }
    match choose(15) {
        0 => N::Bool(flag()),
        1 => N::Int(choose(11) as u8, byte(0, 255)),
        2 => N::Float(float()),
        3 => N::Char(ch()),
        4 => N::Str(utf8(2)),
        5 => N::Shown(ascii_n(1, 0, 0x7f)),
        6 => N::Bytes(bytes(choose(3), 0, 255)),
        7 => N::Nothing,
        8 => N::Unit,
        9 => N::UnitStruct,
        10 => N::UnitVariant,
        11 => N::Fails,
        12 => N::Raw(raw()),
        13 => N::Struct("S", vec![]),
        _ => N::Tuple(vec![]),
    }
}
const NAMES: [&str; 2] = ["S", ""];
/// `parts(n, f)`: up to n of f
fn up_to<T>(n: u8, f: impl Fn() -> T) -> Vec<T> {
    (0..choose(n + 1)).map(|_| f()).collect()
}
fn node(depth: u32, width: u8, rich: bool) -> N {
    if depth == 0 || cflag() {
        return leaf(rich);
    }
    let d = depth - 1;
    let sub = || node(d, width, false);
    let fields = |n: u8| -> Vec<(&'static str, N)> { (0..choose(n + 1)).map(|i| (["a", "b\"", "c", "d"][i], sub())).collect() };
    let keyed = |n: u8| -> Vec<(K, N)> { (0..choose(n + 1)).map(|i| (K::Str(["k", "l", "\"m", "n"][i].into()), sub())).collect() };
    match choose(12) {
        0 => N::Some(Box::new(sub())),
        1 => N::NewStruct(NAMES[choose(2)], Box::new(sub())),
        2 => N::NewVariant(Box::new(sub())),
        3 => N::Seq(true, up_to(width, sub)),
        4 => N::Seq(false, up_to(width, sub)),
        5 => N::Tuple(up_to(width, sub)),
        6 => N::TupleStruct(NAMES[choose(2)], up_to(width, sub)),
        7 => N::TupleVariant(up_to(width, sub)),
        8 => N::Map(keyed(width)),
        9 => N::Collected(keyed(width)),
        10 => N::Struct(NAMES[choose(2)], fields(width)),
        _ => N::StructVariant(fields(width)),
    }
}

/// the schema says as much about the structure as the example shows: named fields and tuple
/// elements are listed under exactly their serialized names and positions
fn covers(s: &Value, i: &Value) -> bool {
    let Value::Object(m) = s else { return s == &Value::Bool(true) };
    if let Some(p) = m.get("properties").and_then(Value::as_object) {
        if let Value::Object(o) = i {
            return p.len() == o.len() && p.iter().all(|(k, s)| o.get(k).is_some_and(|i| covers(s, i)));
        }
    }
    if let (Some(Value::Array(p)), Value::Array(a)) = (m.get("prefixItems"), i) {
        return p.len() == a.len() && p.iter().zip(a).all(|(s, i)| covers(s, i));
    }
    if let Some(Value::Array(b)) = m.get("anyOf") {
        return b.iter().any(|s| covers(s, i) && V::new(s, Dialect::D2020).ok(i));
    }
    if let (Some(x), Value::Array(a)) = (m.get("items"), i) {
        return a.iter().all(|i| covers(x, i));
    }
    if let (Some(x), Value::Object(o)) = (m.get("additionalProperties"), i) {
        return o.values().all(|i| covers(x, i));
    }
    true
}
/// titles are type names, and only the root has one
fn titles(s: &Value) -> bool {
    match s {
        Value::Object(m) => m.iter().all(|(k, v)| match k.as_str() {
            "properties" => v.as_object().is_some_and(|o| o.values().all(|x| x.get("title").is_none() && titles(x))),
            "prefixItems" | "anyOf" => v.as_array().is_some_and(|a| a.iter().all(|x| x.get("title").is_none() && titles(x))),
            "items" | "additionalProperties" => v.get("title").is_none() && titles(v),
            _ => true,
        }),
        _ => true,
    }
}
fn title_of(n: &N) -> Option<&'static str> {
    match n {
        N::NewStruct(s, x) => if s.is_empty() { title_of(x) } else { Some(s) },
        N::TupleStruct(s, _) | N::Struct(s, _) if !s.is_empty() => Some(s),
        _ => None,
    }
}

fn settings(form: usize) -> (SchemaSettings, Dialect) {
    match form {
        0 => (SchemaSettings::draft2020_12(), Dialect::D2020),
        1 => (SchemaSettings::draft07(), Dialect::D7),
        2 => (SchemaSettings::draft2019_09(), Dialect::D2019),
        _ => (SchemaSettings::openapi3(), Dialect::Oas3),
    }
}
fn example<T: Serialize>(x: &T, form: usize, title: Option<Option<&'static str>>) {
    let (set, d) = settings(form);
    let uri = set.meta_schema.clone();
    let want = serde_json::to_value(x);
    let mut g = SchemaGenerator::new(set.clone());
    let before = cflag();
    if before {
        g.subschema_for::<BTreeMap<String, Option<std::time::Duration>>>();
    }
    let first = g.root_schema_for_value(x);
    let last = g.into_root_schema_for_value(x);
    explain!("{form}: value {:?}\nschema {}", want.as_ref().ok(), first.as_ref().map_or("-".into(), |s| serde_json::to_string(s).unwrap()));
    observe(&[first.is_ok() as u8]);
    let (Ok(first), Ok(last)) = (&first, &last) else {
        check(first.is_err() && last.is_err(), "root_schema_for_value and into_root_schema_for_value disagree");
        check(want.is_err(), "no schema for a value that serializes");
        reach(2);
        return;
    };
    let first = first.as_value();
    let comps = |s: &Value| if before { resolve(s, if form == 1 { "#/definitions/Duration" } else if form == 3 { "#/components/schemas/Duration" } else { "#/$defs/Duration" }).is_some() } else { true };
    check(first == last.as_value(), "root_schema_for_value and into_root_schema_for_value disagree");
    check(comps(first), "a definition of the generator is missing");
    check(first.get("$schema").and_then(Value::as_str) == uri.as_deref(), "wrong $schema");
    let Ok(want) = want else {
        // not representable in JSON: there is no example to include
        check(first.get("examples").is_none() && first.get("example").is_none(), "an example that is not the value");
        reach(3);
        return;
    };
    if form == 3 {
        check(first.get("example") == Some(&want), "the example is not included as it serializes");
    } else {
        check(first.get("examples").and_then(Value::as_array).is_some_and(|a| a.len() == 1 && a[0] == want), "the example is not included as it serializes");
    }
    let mut v = V::new(first, d);
    v.tuple_items = true;
    check(v.ok(&want), "the schema rejects the example it was made from");
    check(!v.dangling.get() && !v.malformed.get(), "dangling reference or malformed keyword");
    let mut bare = first.clone();
    if let Value::Object(m) = &mut bare {
        m.remove("$schema");
    }
    if form != 3 {
        check(wf(&bare, d), "a schema that is not well formed");
    }
    if form == 0 {
        check(covers(first, &want), "the schema does not list the fields of the example");
        check(titles(first), "a title below the root");
    }
    if let Some(t) = title {
        check(first.get("title").and_then(Value::as_str) == t, "the title is not the name of the type");
    }
    reach(1);
}

/// every serializer call at the root and one level down
pub fn ex_calls() {
    let n = if cflag() { node(1, 2, true) } else { leaf(true) };
    let form = choose(4);
    let t = title_of(&n);
    example(&n, form, Some(t));
}
pub fn ex_leaves() {
    let l = leaf(true);
    let n = match choose(6) {
        0 => N::Some(Box::new(l)),
        1 => N::Struct("T", vec![("f", l)]),
        2 => N::Seq(true, vec![l]),
        3 => N::Collected(vec![(K::Str("k".into()), l)]),
        4 => N::Tuple(vec![N::Int(0, 1), l]),
        _ => N::NewStruct("W", Box::new(l)),
    };
    let t = title_of(&n);
    example(&n, choose(4), Some(t));
}
/// nested containers
pub fn ex_nested() {
    let n = node(if THOROUGH { 3 } else { 2 }, 1, false);
    let t = title_of(&n);
    example(&n, if THOROUGH { choose(4) } else { 0 }, Some(t));
}
/// sequences and maps whose elements differ
pub fn ex_mixed() {
    let x = || match choose(5) {
        0 => leaf(false),
        1 => N::Some(Box::new(leaf(false))),
        2 => N::Struct("P", vec![("a", leaf(false))]),
        3 => N::Seq(true, up_to(1, || leaf(false))),
        _ => N::Raw(raw()),
    };
    let n = match choose(3) {
        0 => N::Seq(true, vec![x(), x()]),
        1 => N::Collected(vec![(K::Str("k".into()), x()), (K::Str("l".into()), x())]),
        _ => N::Seq(false, vec![leaf(false), x(), leaf(false)]),
    };
    example(&n, 0, Some(None));
}
/// keys of any type and content
pub fn ex_keys() {
    let one = |k: K| (k, N::Int(2, 1));
    let n = if cflag() {
        N::Map(vec![one(key())])
    } else {
        N::Map(vec![(K::Str(utf8(2)), N::Int(2, 1)), (K::Str(ascii_n(1, 0, 0x7f)), N::Str("x".into()))])
    };
    let n = if cflag() { N::Struct("S", vec![("in", n)]) } else { n };
    example(&n, choose(4), None);
}

#[derive(serde::Serialize)]
struct Plain<'a> {
    #[serde(rename = "x-y")]
    a: u8,
    #[serde(skip_serializing_if = "Option::is_none")]
    b: Option<&'a str>,
    c: (),
}
#[derive(serde::Serialize)]
struct Outer<'a> {
    o: Option<Box<Outer<'a>>>,
    #[serde(flatten)]
    p: Plain<'a>,
    #[serde(flatten)]
    m: BTreeMap<String, E<'a>>,
}
#[derive(serde::Serialize)]
#[serde(rename_all = "kebab-case")]
enum E<'a> {
    UnitCase,
    New(&'a str),
    Tuple(u8, bool),
    Struct { f: Option<u8> },
}
#[derive(serde::Serialize)]
#[serde(tag = "t")]
enum I<'a> {
    U,
    N(Plain<'a>),
    S { f: E<'a> },
}
#[derive(serde::Serialize)]
#[serde(tag = "t", content = "c")]
enum J<'a> {
    U,
    N(Plain<'a>),
    T(u8, E<'a>),
}
#[derive(serde::Serialize)]
#[serde(untagged)]
enum X<'a> {
    A(E<'a>),
    B { j: J<'a> },
    C,
}
#[derive(serde::Serialize)]
struct Unit;
#[derive(serde::Serialize)]
struct Newtype<T>(T);
#[derive(serde::Serialize)]
struct Pair<T>(T, Unit);
#[derive(serde::Serialize)]
#[serde(transparent)]
struct Thin<T> {
    t: T,
}
/// derived Serialize implementations, with flattening and every tagging
pub fn ex_derived() {
    let form = choose(4);
    let s = ascii_n(1, 0, 0x7f);
    let n = byte(0, 255);
    let plain = || Plain { a: n, b: if cflag() { Some(&s) } else { None }, c: () };
    let e = || match choose(4) {
        0 => E::UnitCase,
        1 => E::New(&s),
        2 => E::Tuple(n, flag()),
        _ => E::Struct { f: if cflag() { Some(n) } else { None } },
    };
    let j = || match choose(3) {
        0 => J::U,
        1 => J::N(plain()),
        _ => J::T(n, e()),
    };
    match choose(12) {
        0 => example(&plain(), form, Some(Some("Plain"))),
        1 => {
            let leaf = |o| Outer { o, p: plain(), m: up_to(1, || ("z".to_string(), e())).into_iter().collect() };
            let o = leaf(if cflag() { Some(Box::new(leaf(None))) } else { None });
            example(&o, form, None)
        }
        2 => example(&e(), form, Some(None)),
        3 => match choose(3) {
            0 => example(&I::U, form, None),
            1 => example(&I::N(plain()), form, None),
            _ => example(&I::S { f: e() }, form, None),
        },
        4 => example(&j(), form, None),
        5 => match choose(3) {
            0 => example(&X::A(e()), form, None),
            1 => example(&X::B { j: j() }, form, None),
            _ => example(&X::C, form, None),
        },
        6 => example(&Newtype(Pair(e(), Unit)), form, Some(Some("Newtype"))),
        7 => example(&Thin { t: plain() }, form, Some(Some("Plain"))),
        8 => example(&vec![e(), e()], form, Some(None)),
        9 => example(&[("k", plain()), (&s, plain())].into_iter().collect::<BTreeMap<_, _>>(), form, Some(None)),
        10 => example(&(n, [0u8; 0], e(), Some(Some(plain()))), form, Some(None)),
        _ => example(&[Some(Ok::<_, ()>(Newtype(n))), None, Some(Err(()))], form, Some(None)),
    }
}
