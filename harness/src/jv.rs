//! Symbolic JSON values.
use crate::sx::*;
use serde_json::{Map, Value};

/// any 64-bit unsigned number (8 symbolic bytes)
pub fn u64v() -> u64 {
    let mut x = 0u64;
    for _ in 0..8 {
        x = x << 8 | byte(0, 255) as u64;
    }
    x
}
/// any JSON integer serde_json can represent exactly: 0..2^64 or -2^63..0
pub fn wide_int() -> Value {
    if cflag() {
        Value::from(u64v())
    } else {
        let x = u64v();
        assume(x >> 63 == 1);
        Value::from(x as i64)
    }
}
/// -256..=255
pub fn small_int() -> Value {
    let b = byte(0, 255) as i64;
    Value::from(if cflag() { b } else { -1 - b })
}
pub fn boolv() -> Value {
    Value::Bool(flag())
}
pub fn strv(n: usize) -> Value {
    Value::String(ascii(n))
}
/// one of the given strings
pub fn word(ws: &[&str]) -> Value {
    Value::String(ws[choose(ws.len() as u8)].to_string())
}
/// a representative of every JSON type: null, bool, number, string, [], {}
pub fn scalar_any() -> Value {
    match choose(7) {
        0 => Value::Null,
        1 => boolv(),
        2 => small_int(),
        3 => strv(1),
        4 => Value::Array(vec![]),
        5 => Value::Object(Map::new()),
        _ => Value::from(1.5),
    }
}

pub type G<'a> = &'a dyn Fn() -> Value;

/// an object: every listed key is absent or holds a generated value
pub fn object(fields: &[(&str, G)]) -> Value {
    let mut m = Map::new();
    for (k, g) in fields {
        if cflag() {
            m.insert(k.to_string(), g());
        }
    }
    Value::Object(m)
}
/// an array of at most n generated values
pub fn array(n: u8, g: G) -> Value {
    let len = choose(n + 1);
    Value::Array((0..len).map(|_| g()).collect())
}
/// one of several generators
pub fn one_of(gs: &[G]) -> Value {
    gs[choose(gs.len() as u8)]()
}
/// a value of the expected kind, or any other JSON type
pub fn mostly(g: G) -> Value {
    match choose(2) {
        0 => g(),
        _ => wrong(),
    }
}
/// one concrete value per JSON type (null, false, 3, "zz", [], {})
pub fn wrong() -> Value {
    match choose(6) {
        0 => Value::Null,
        1 => Value::Bool(false),
        2 => Value::from(3),
        3 => Value::from("zz"),
        4 => Value::Array(vec![]),
        _ => Value::Object(Map::new()),
    }
}
/// digest of a value (structure + bytes), without going through the JSON text encoder
pub fn observe_value(v: &Value) {
    let mut b = Vec::new();
    enc(v, &mut b);
    observe(&b);
}
fn enc(v: &Value, b: &mut Vec<u8>) {
    match v {
        Value::Null => b.push(b'n'),
        Value::Bool(x) => {
            b.push(b'b');
            b.push(*x as u8)
        }
        Value::Number(_) => match crate::val::as_int(v) {
            Some(n) => {
                b.push(b'i');
                b.extend_from_slice(&n.to_le_bytes())
            }
            None => {
                b.push(b'f');
                b.extend_from_slice(&v.as_f64().unwrap_or(0.0).to_bits().to_le_bytes())
            }
        },
        Value::String(s) => {
            b.push(b's');
            b.push(s.len() as u8);
            b.extend_from_slice(s.as_bytes())
        }
        Value::Array(a) => {
            b.push(b'[');
            a.iter().for_each(|x| enc(x, b));
            b.push(b']')
        }
        Value::Object(m) => {
            b.push(b'{');
            for (k, x) in m {
                b.push(k.len() as u8);
                b.extend_from_slice(k.as_bytes());
                enc(x, b)
            }
            b.push(b'}')
        }
    }
}
