//! C30: what a root schema consists of: the type's own schema, its title, the dialect, the definitions; transformed once.
use crate::explain;
use crate::jv::*;
use crate::sx::*;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::transform::Transform;
use schemars::{json_schema, JsonSchema, Schema};
use serde::{Serialize, Serializer};
use serde_json::{json, Map, Value};
use std::borrow::Cow;

static mut NAME: String = String::new();
static mut DEF: String = String::new();
static mut OWN: usize = 0;
static mut TITLE: Value = Value::Null;
/// the schema that X's json_schema last returned
static mut MADE: Value = Value::Null;

/// the type whose root schema is made
pub struct X;
/// a type with a definition
pub struct Y;
impl JsonSchema for Y {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(unsafe { DEF.clone() })
    }
    fn schema_id() -> Cow<'static, str> {
        "id of y".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({ "type": "boolean", "title": "of y" })
    }
}
const OWNS: u8 = 9;
impl JsonSchema for X {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(unsafe { NAME.clone() })
    }
    fn schema_id() -> Cow<'static, str> {
        "id of x".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let t = unsafe { TITLE.clone() };
        let s = match unsafe { OWN } {
            0 => Schema::from(true),
            1 => Schema::from(false),
            2 => json_schema!({}),
            3 => json_schema!({ "type": "string", "title": t, "minLength": 1 }),
            4 => json_schema!({ "type": "object", "properties": { "y": g.subschema_for::<Y>(), "title": {} } }),
            5 => g.subschema_for::<Y>(),
            6 => Y::json_schema(g),
            7 => json_schema!({ "$schema": "own", "items": g.subschema_for::<Y>(), "title": t, "x": null }),
            _ => json_schema!({ "anyOf": [g.subschema_for::<X>(), g.subschema_for::<Y>()], "description": "" }),
        };
        unsafe { MADE = s.clone().to_value() };
        s
    }
}

/// counts how often it is called for a schema, and notes what is there
#[derive(Clone)]
pub struct Count(&'static str);
impl Transform for Count {
    fn transform(&mut self, s: &mut Schema) {
        let n = s.get(self.0).and_then(Value::as_u64).unwrap_or(0);
        let saw: Vec<Value> = ["title", "$schema", "$defs", "examples", "x-first"].iter().map(|k| s.get(*k).cloned().unwrap_or(Value::Null)).collect();
        s.insert(self.0.to_string(), json!(n + 1));
        s.insert(format!("{}-saw", self.0), Value::Array(saw));
    }
}

fn settings(transforms: bool) -> (SchemaSettings, Option<String>, &'static str) {
    let mut s = SchemaSettings::default();
    let meta = match choose(3) {
        0 => None,
        1 => Some(utf8(1)),
        _ => Some("https://json-schema.org/draft/2020-12/schema".to_string()),
    };
    s.meta_schema = meta.clone().map(Into::into);
    let (path, at) = if transforms { ("/$defs", "$defs") } else { [("/$defs", "$defs"), ("#/$defs/", "$defs"), ("/a~1b", "a/b"), ("/definitions", "definitions")][choose(4)] };
    s.definitions_path = path.into();
    s.inline_subschemas = cflag();
    if cflag() {
        s = s.for_serialize();
    }
    if transforms {
        s = s.with_transform(Count("x-first")).with_transform(Count("x-second"));
    }
    (s, meta, at)
}
fn inputs() {
    unsafe {
        OWN = choose(OWNS);
        NAME = utf8(1);
        DEF = ["Y", "title", "a/b~"][choose(3)].to_string();
        TITLE = if OWN != 3 && OWN != 7 {
            Value::Null
        } else {
            match choose(3) {
                0 => Value::String(utf8(1)),
                1 => Value::Null,
                _ => Value::Bool(flag()),
            }
        };
    }
}
/// the schema of X made by some sequence of calls, and whether Y was asked for before
fn made(s: SchemaSettings) -> (Value, bool) {
    let how = choose(8);
    let mut g = if how % 2 == 0 { s.into_generator() } else { SchemaGenerator::new(s) };
    let out = match how {
        0 => g.into_root_schema_for::<X>(),
        1 => g.root_schema_for::<X>(),
        2 => {
            let _ = g.root_schema_for::<X>();
            g.root_schema_for::<X>()
        }
        3 => {
            let _ = g.subschema_for::<Y>();
            g.into_root_schema_for::<X>()
        }
        4 => {
            let _ = g.root_schema_for::<Y>();
            let _ = g.subschema_for::<Y>();
            g.root_schema_for::<X>()
        }
        5 => {
            let mut h = g.clone();
            let _ = h.root_schema_for::<X>();
            let _ = g.root_schema_for::<Y>();
            h.into_root_schema_for::<X>()
        }
        6 => {
            let _ = g.root_schema_for_value(&true);
            g.root_schema_for::<X>()
        }
        _ => {
            let _ = g.root_schema_for::<X>();
            let _ = g.take_definitions(true);
            g.into_root_schema_for::<X>()
        }
    };
    (out.to_value(), how == 3 || how == 4)
}
fn own() -> Map<String, Value> {
    match unsafe { MADE.clone() } {
        Value::Object(o) => o,
        Value::Bool(false) => json!({ "not": {} }).as_object().cloned().unwrap_or_default(),
        _ => Map::new(),
    }
}
/// title, dialect and definitions are added to the type's own schema, nothing else is
pub fn root_parts() {
    inputs();
    let (s, meta, at) = settings(false);
    let inlined = s.inline_subschemas;
    let (root, before) = made(s);
    let mut want = own();
    want.entry("title").or_insert_with(|| json!(unsafe { NAME.clone() }));
    if let Some(m) = meta {
        want.insert("$schema".into(), json!(m));
    }
    let mut got = root.as_object().cloned().unwrap_or_default();
    let defs = got.remove(at);
    explain!("own schema {}\nroot schema {root}\nwanted beside the definitions {}", Value::Object(own()), Value::Object(want.clone()));
    observe_value(&root);
    check(got == want, "a root schema is not the type's schema with its title and dialect");
    let mut names = vec![];
    if before || (!inlined && matches!(unsafe { OWN }, 4 | 5 | 7 | 8)) {
        names.push(unsafe { DEF.clone() });
    }
    match defs {
        None => check(names.is_empty() || (inlined && before), "definitions are missing from a root schema"),
        Some(d) => {
            let d = d.as_object().cloned().unwrap_or_default();
            for (k, v) in &d {
                check(names.contains(k), "a definition nobody asked for is in a root schema");
                check(v == &json!({ "type": "boolean", "title": "of y" }), "a definition in a root schema is not the type's schema");
            }
            check(!d.is_empty() && (before || d.len() == names.len()), "definitions are missing from a root schema");
        }
    }
    reach(1);
}
/// transforms run once each, in the order they were added, on the finished root schema
pub fn root_transforms() {
    inputs();
    let (s, meta, _) = settings(true);
    let (root, _) = made(s);
    let mut want = own();
    want.entry("title").or_insert_with(|| json!(unsafe { NAME.clone() }));
    if let Some(m) = meta {
        want.insert("$schema".into(), json!(m));
    }
    let mut got = root.as_object().cloned().unwrap_or_default();
    let defs = got.remove("$defs");
    let g = |k: &str| want.get(k).cloned().unwrap_or(Value::Null);
    let defs = defs.unwrap_or(Value::Null);
    let saw = |x: Value| Value::Array(vec![g("title"), g("$schema"), defs.clone(), Value::Null, x]);
    let mut w = want.clone();
    w.insert("x-first".into(), json!(1));
    w.insert("x-first-saw".into(), saw(Value::Null));
    w.insert("x-second".into(), json!(1));
    w.insert("x-second-saw".into(), saw(json!(1)));
    explain!("root schema {root}\nwanted {}", Value::Object(w.clone()));
    observe_value(&root);
    check(got == w, "transforms did not run once each, in order, on the finished root schema");
    if let Value::Object(d) = &defs {
        for v in d.values() {
            check(v == &json!({ "type": "boolean", "title": "of y" }), "a transform was applied to the definitions a generator keeps");
        }
    }
    reach(1);
}

// ------------------------------------------------------------------------------------------ for values
#[derive(Serialize)]
pub struct Named {
    a: u8,
    b: Option<bool>,
}
#[derive(Serialize)]
pub struct New(String);
#[derive(Serialize)]
pub struct Unit;
#[derive(Serialize)]
pub enum En {
    A,
    B(u8),
    C { x: bool },
}
/// a struct with any name
pub struct Any(&'static str);
impl Serialize for Any {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_newtype_struct(self.0, &true)
    }
}
fn for_value<T: Serialize>(s: SchemaSettings, meta: Option<String>, v: T, transforms: bool) {
    let mut g = s.clone().into_generator();
    let mut before = Value::Null;
    if cflag() {
        let _ = g.subschema_for::<Y>();
        before = json!({ "Y": { "type": "boolean", "title": "of y" } });
    }
    let h = g.clone();
    let written = serde_json::to_value(&v).unwrap_or(Value::Null);
    let first = g.root_schema_for_value(&v).map(Schema::to_value).unwrap_or(Value::Null);
    let again = g.root_schema_for_value(&v).map(Schema::to_value).unwrap_or(Value::Null);
    let consumed = h.into_root_schema_for_value(&v).map(Schema::to_value).unwrap_or(Value::Null);
    explain!("value {written}\nroot_schema_for_value {first}\nagain {again}\ninto_root_schema_for_value {consumed}");
    observe_value(&first);
    check(first == again, "the schema for a value depends on the schema made before");
    check(first == consumed, "root_schema_for_value and into_root_schema_for_value differ");
    check(first.get("examples") == Some(&json!([written])), "the value is not the example of its schema");
    check(first.get("$schema").cloned() == meta.map(Value::String), "the dialect of the schema for a value is wrong");
    if s.inline_subschemas {
        return;
    }
    check(first.get("$defs").cloned().unwrap_or(Value::Null) == before, "the definitions beside the schema for a value are wrong");
    if transforms {
        check(first.get("x-first") == Some(&json!(1)) && first.get("x-second") == Some(&json!(1)), "transforms did not run once each");
        let saw = &first["x-second-saw"];
        check(saw[0] == first["title"] && saw[1] == first["$schema"] && saw[2] == first["$defs"] && saw[3] == first["examples"] && saw[4] == json!(1), "transforms did not run in order on the finished schema");
    } else {
        check(first.get("x-first").is_none(), "a transform ran");
    }
    reach(1);
}
pub fn root_values() {
    unsafe { DEF = "Y".to_string() };
    let tr = cflag();
    let (mut s, meta, _) = settings(true);
    if !tr {
        s.transforms = vec![];
    }
    match choose(10) {
        0 => for_value(s, meta, Named { a: byte(0, 255), b: if cflag() { Some(flag()) } else { None } }, tr),
        1 => for_value(s, meta, New(utf8(1)), tr),
        2 => for_value(s, meta, Unit, tr),
        3 => for_value(s, meta, En::A, tr),
        4 => for_value(s, meta, En::B(1), tr),
        5 => for_value(s, meta, En::C { x: flag() }, tr),
        6 => for_value(s, meta, vec![flag()], tr),
        7 => for_value(s, meta, json!({ "title": 1, "examples": flag() }), tr),
        8 => for_value(s, meta, Some(flag()), tr),
        _ => for_value(s, meta, Any(["", "N", "a b"][choose(3)]), tr),
    }
}
