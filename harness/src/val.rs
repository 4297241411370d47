//! A small JSON Schema validator, written from the specifications (not from schemars): the oracle
//! that gives schemas their meaning.  It is executed symbolically together with the code under test.
use serde_json::{Map, Value};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Dialect {
    D7,
    D2019,
    D2020,
    /// OpenAPI 3.0 schema object (nullable; no const/prefixItems/unevaluated*/type arrays)
    Oas3,
    /// superset used to compare a schema before and after one transform
    Any,
}
use Dialect::*;

pub struct V<'a> {
    pub root: &'a Value,
    pub d: Dialect,
    /// treat intN/uintN formats as range assertions
    pub int_formats: bool,
    /// OpenAPI with item lists (what ReplacePrefixItems emits there)
    pub tuple_items: bool,
    pub dangling: Cell<bool>,
    pub malformed: Cell<bool>,
    depth: Cell<u32>,
}

#[derive(Clone, Copy, Default)]
pub struct Ev {
    pub props: u64,
    pub items: u64,
}

pub fn validates(root: &Value, inst: &Value) -> bool {
    V::new(root, D2020).valid(root, inst)
}

fn pct(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = hexval(*b.get(i + 1)?)?;
            let l = hexval(*b.get(i + 2)?)?;
            out.push(h * 16 + l);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(out)
}

pub fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// Reference JSON-pointer step: RFC 6901 token -> key
pub fn unescape_token(t: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'~' && i + 1 < t.len() && t[i + 1] == b'1' {
            out.push(b'/');
            i += 2;
        } else if t[i] == b'~' && i + 1 < t.len() && t[i + 1] == b'0' {
            out.push(b'~');
            i += 2;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    out
}

/// Independent `$ref` resolution within one document: RFC 3986 fragment decoding + RFC 6901.
pub fn resolve<'a>(root: &'a Value, r: &str) -> Option<&'a Value> {
    let frag = r.strip_prefix('#')?;
    let bytes = pct(frag)?;
    let mut cur = root;
    if bytes.is_empty() {
        return Some(cur);
    }
    if bytes[0] != b'/' {
        return None;
    }
    for tok in bytes[1..].split(|b| *b == b'/') {
        let key = unescape_token(tok);
        cur = match cur {
            Value::Object(m) => {
                let mut found = None;
                for (k, v) in m {
                    if k.len() == key.len() && k.as_bytes() == &key[..] {
                        found = Some(v);
                        break;
                    }
                }
                found?
            }
            Value::Array(a) => {
                let mut n = 0usize;
                if key.is_empty() || (key.len() > 1 && key[0] == b'0') {
                    return None;
                }
                for b in &key {
                    if !b.is_ascii_digit() {
                        return None;
                    }
                    n = n * 10 + (*b - b'0') as usize;
                }
                a.get(n)?
            }
            _ => return None,
        };
    }
    Some(cur)
}

pub fn as_int(v: &Value) -> Option<i128> {
    if let Some(u) = v.as_u64() {
        return Some(u as i128);
    }
    if let Some(i) = v.as_i64() {
        return Some(i as i128);
    }
    None
}

pub fn num_cmp(a: &Value, b: &Value) -> Option<core::cmp::Ordering> {
    match (as_int(a), as_int(b)) {
        (Some(x), Some(y)) => Some(x.cmp(&y)),
        (Some(x), None) => {
            let y = b.as_f64()?;
            if y >= 1e19 {
                return Some(core::cmp::Ordering::Less);
            }
            if y <= -1e19 {
                return Some(core::cmp::Ordering::Greater);
            }
            let f = y.floor();
            let fi = f as i128;
            Some(if f == y { x.cmp(&fi) } else if x <= fi { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater })
        }
        (None, Some(_)) => num_cmp(b, a).map(|o| o.reverse()),
        (None, None) => a.as_f64()?.partial_cmp(&b.as_f64()?),
    }
}

pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => x == y,
        (Value::Number(_), Value::Number(_)) => num_cmp(a, b) == Some(core::cmp::Ordering::Equal),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| json_eq(p, q))),
        _ => false,
    }
}

impl<'a> V<'a> {
    pub fn new(root: &'a Value, d: Dialect) -> Self {
        V { root, d, int_formats: true, tuple_items: false, dangling: Cell::new(false), malformed: Cell::new(false), depth: Cell::new(0) }
    }
    pub fn ok(&self, inst: &Value) -> bool {
        self.valid(self.root, inst)
    }
    pub fn valid(&self, s: &Value, i: &Value) -> bool {
        let mut e = Ev::default();
        self.go(s, i, &mut e)
    }
    /// a subschema applied in place: what it evaluates counts for the parent, not the other way round
    fn inplace(&self, s: &Value, i: &Value, ev: &mut Ev) -> bool {
        let mut e = Ev::default();
        let ok = self.go(s, i, &mut e);
        if ok {
            ev.props |= e.props;
            ev.items |= e.items;
        }
        ok
    }
    fn bad(&self) -> bool {
        self.malformed.set(true);
        false
    }
    fn supported(&self, k: &str) -> bool {
        match self.d {
            Any => true,
            D2020 => !matches!(k, "additionalItems" | "nullable" | "definitions" | "dependencies"),
            D2019 => !matches!(k, "prefixItems" | "nullable" | "definitions" | "dependencies"),
            D7 => !matches!(k, "prefixItems" | "unevaluatedProperties" | "unevaluatedItems" | "dependentSchemas" | "dependentRequired" | "nullable" | "$defs"),
            Oas3 => matches!(
                k,
                "$ref" | "type" | "enum" | "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum" | "multipleOf" | "minLength" | "maxLength" | "pattern" | "format" | "items" | "minItems" | "maxItems" | "uniqueItems" | "properties" | "additionalProperties" | "required" | "minProperties" | "maxProperties" | "allOf" | "anyOf" | "oneOf" | "not" | "nullable"
            ),
        }
    }
    pub fn go(&self, s: &Value, i: &Value, ev: &mut Ev) -> bool {
        let m = match s {
            Value::Bool(b) => {
                if self.d == Oas3 {
                    return self.bad();
                }
                return *b;
            }
            Value::Object(m) => m,
            _ => return self.bad(),
        };
        if let Some(r) = m.get("$ref") {
            let ok = self.reference(r, i, ev);
            if !ok {
                return false;
            }
            if self.d == D7 || self.d == Oas3 {
                return true; // siblings of $ref are ignored in these dialects
            }
        }
        let mut ok = true;
        for (k, v) in m {
            if !self.supported(k) {
                continue;
            }
            if !self.keyword(k, v, m, i, ev) {
                ok = false;
                break;
            }
        }
        if !ok {
            return false;
        }
        if self.supported("unevaluatedProperties") {
            if let (Some(u), Value::Object(o)) = (m.get("unevaluatedProperties"), i) {
                for (n, (_, v)) in o.iter().enumerate() {
                    if ev.props >> n & 1 == 0 {
                        if !self.valid(u, v) {
                            return false;
                        }
                        ev.props |= 1 << n;
                    }
                }
            }
        }
        if self.supported("unevaluatedItems") {
            if let (Some(u), Value::Array(a)) = (m.get("unevaluatedItems"), i) {
                for (n, v) in a.iter().enumerate() {
                    if ev.items >> n & 1 == 0 {
                        if !self.valid(u, v) {
                            return false;
                        }
                        ev.items |= 1 << n;
                    }
                }
            }
        }
        true
    }
    fn reference(&self, r: &Value, i: &Value, ev: &mut Ev) -> bool {
        let r = match r.as_str() {
            Some(r) => r,
            None => return self.bad(),
        };
        match resolve(self.root, r) {
            Some(t) => {
                if self.depth.get() > 40 {
                    return false; // unproductive recursion
                }
                self.depth.set(self.depth.get() + 1);
                let b = self.inplace(t, i, ev);
                self.depth.set(self.depth.get() - 1);
                b
            }
            None => {
                self.dangling.set(true);
                false
            }
        }
    }
    fn ty(&self, t: &str, i: &Value) -> bool {
        match t {
            "null" => i.is_null() && self.d != Oas3,
            "boolean" => i.is_boolean(),
            "string" => i.is_string(),
            "array" => i.is_array(),
            "object" => i.is_object(),
            "number" => i.is_number(),
            "integer" => match i {
                Value::Number(n) => n.is_u64() || n.is_i64() || n.as_f64().is_some_and(|f| f == f.trunc()),
                _ => false,
            },
            _ => self.bad(),
        }
    }
    fn each_schema(&self, v: &Value) -> bool {
        match v {
            Value::Array(a) if !a.is_empty() => true,
            _ => self.bad(),
        }
    }
    fn uint(&self, v: &Value) -> usize {
        match v.as_u64() {
            Some(n) => n as usize,
            None => {
                self.bad();
                0
            }
        }
    }
    fn keyword(&self, k: &str, v: &Value, m: &Map<String, Value>, i: &Value, ev: &mut Ev) -> bool {
        use core::cmp::Ordering::*;
        match k {
            "type" => {
                let nullable = self.d == Oas3 && m.get("nullable") == Some(&Value::Bool(true));
                if nullable && i.is_null() {
                    return true;
                }
                if self.d == Any && m.get("nullable") == Some(&Value::Bool(true)) && i.is_null() {
                    return true;
                }
                match v {
                    Value::String(t) => self.ty(t, i),
                    Value::Array(a) if self.d != Oas3 => {
                        for t in a {
                            match t.as_str() {
                                Some(t) => {
                                    if self.ty(t, i) {
                                        return true;
                                    }
                                }
                                None => return self.bad(),
                            }
                        }
                        false
                    }
                    _ => self.bad(),
                }
            }
            "const" => json_eq(v, i),
            "enum" => match v {
                Value::Array(a) => a.iter().any(|x| json_eq(x, i)),
                _ => self.bad(),
            },
            "minimum" => !i.is_number() || matches!(num_cmp(i, v), Some(Greater | Equal)),
            "maximum" => !i.is_number() || matches!(num_cmp(i, v), Some(Less | Equal)),
            "exclusiveMinimum" => !i.is_number() || matches!(num_cmp(i, v), Some(Greater)),
            "exclusiveMaximum" => !i.is_number() || matches!(num_cmp(i, v), Some(Less)),
            "multipleOf" => match (as_int(i), as_int(v)) {
                (Some(a), Some(b)) if b > 0 => a % b == 0,
                _ => true,
            },
            "minLength" => i.as_str().map_or(true, |s| s.chars().count() >= self.uint(v)),
            "maxLength" => i.as_str().map_or(true, |s| s.chars().count() <= self.uint(v)),
            "pattern" => match (v.as_str(), i.as_str()) {
                (Some(p), Some(s)) => crate::rx::is_match(p, s),
                (None, _) => self.bad(),
                _ => true,
            },
            "format" if self.int_formats => {
                let n = match as_int(i) {
                    Some(n) => n,
                    None => return true,
                };
                match v.as_str() {
                    Some("int8") => n >= -128 && n <= 127,
                    Some("int16") => n >= -32768 && n <= 32767,
                    Some("int32") => n >= i32::MIN as i128 && n <= i32::MAX as i128,
                    Some("int64") | Some("int") => n >= i64::MIN as i128 && n <= i64::MAX as i128,
                    Some("uint8") => n >= 0 && n <= 255,
                    Some("uint16") => n >= 0 && n <= 65535,
                    Some("uint32") => n >= 0 && n <= u32::MAX as i128,
                    Some("uint64") | Some("uint") => n >= 0 && n <= u64::MAX as i128,
                    Some("uint128") => n >= 0,
                    _ => true,
                }
            }
            "items" => {
                let a = match i {
                    Value::Array(a) => a,
                    _ => return true,
                };
                if let Value::Array(t) = v {
                    if self.d == D2020 || (self.d == Oas3 && !self.tuple_items) {
                        return self.bad();
                    }
                    for (n, x) in a.iter().enumerate() {
                        let s = match t.get(n) {
                            Some(s) => s,
                            None => match m.get("additionalItems") {
                                Some(s) => s,
                                None => break,
                            },
                        };
                        if !self.valid(s, x) {
                            return false;
                        }
                        ev.items |= 1 << n;
                    }
                    return true;
                }
                let skip = match (self.supported("prefixItems"), m.get("prefixItems")) {
                    (true, Some(Value::Array(p))) => p.len(),
                    _ => 0,
                };
                for (n, x) in a.iter().enumerate().skip(skip) {
                    if !self.valid(v, x) {
                        return false;
                    }
                    ev.items |= 1 << n;
                }
                true
            }
            "prefixItems" => {
                let t = match v {
                    Value::Array(t) => t,
                    _ => return self.bad(),
                };
                if let Value::Array(a) = i {
                    for (n, x) in a.iter().enumerate() {
                        if let Some(s) = t.get(n) {
                            if !self.valid(s, x) {
                                return false;
                            }
                            ev.items |= 1 << n;
                        }
                    }
                }
                true
            }
            "minItems" => i.as_array().map_or(true, |a| a.len() >= self.uint(v)),
            "maxItems" => i.as_array().map_or(true, |a| a.len() <= self.uint(v)),
            "uniqueItems" => {
                if let (Value::Bool(true), Value::Array(a)) = (v, i) {
                    for x in 0..a.len() {
                        for y in 0..x {
                            if json_eq(&a[x], &a[y]) {
                                return false;
                            }
                        }
                    }
                }
                true
            }
            "contains" => match i {
                Value::Array(a) => {
                    let limits = !matches!(self.d, D7 | Oas3);
                    let min = if limits { m.get("minContains").map_or(1, |v| self.uint(v)) } else { 1 };
                    let max = if limits { m.get("maxContains").map(|v| self.uint(v)) } else { None };
                    let mut found = 0;
                    for (n, x) in a.iter().enumerate() {
                        if self.valid(v, x) {
                            found += 1;
                            if matches!(self.d, D2020 | Any) {
                                ev.items |= 1 << n;
                            }
                        }
                    }
                    found >= min && max.map_or(true, |x| found <= x)
                }
                _ => true,
            },
            "dependentRequired" => match (v, i) {
                (Value::Object(d), Value::Object(o)) => {
                    for (k, r) in d {
                        if o.contains_key(k) && !self.keyword("required", r, m, i, ev) {
                            return false;
                        }
                    }
                    true
                }
                (Value::Object(_), _) => true,
                _ => self.bad(),
            },
            "dependencies" => match (v, i) {
                (Value::Object(d), Value::Object(o)) => {
                    for (k, r) in d {
                        if o.contains_key(k) && !(if r.is_array() { self.keyword("required", r, m, i, ev) } else { self.inplace(r, i, ev) }) {
                            return false;
                        }
                    }
                    true
                }
                (Value::Object(_), _) => true,
                _ => self.bad(),
            },
            "properties" => {
                let p = match v {
                    Value::Object(p) => p,
                    _ => return self.bad(),
                };
                if let Value::Object(o) = i {
                    for (n, (k, x)) in o.iter().enumerate() {
                        if let Some(s) = p.get(k) {
                            if !self.valid(s, x) {
                                return false;
                            }
                            ev.props |= 1 << n;
                        }
                    }
                }
                true
            }
            "patternProperties" => {
                let p = match v {
                    Value::Object(p) => p,
                    _ => return self.bad(),
                };
                if let Value::Object(o) = i {
                    for (n, (k, x)) in o.iter().enumerate() {
                        for (pat, s) in p {
                            if crate::rx::is_match(pat, k) {
                                if !self.valid(s, x) {
                                    return false;
                                }
                                ev.props |= 1 << n;
                            }
                        }
                    }
                }
                true
            }
            "additionalProperties" => {
                if self.d == Oas3 && v.is_boolean() {
                    if let (Value::Bool(false), Value::Object(o)) = (v, i) {
                        for (k, _) in o {
                            if m.get("properties").and_then(|p| p.get(k)).is_none() {
                                return false;
                            }
                        }
                    }
                    return true;
                }
                if let Value::Object(o) = i {
                    'next: for (n, (k, x)) in o.iter().enumerate() {
                        if m.get("properties").and_then(|p| p.get(k)).is_some() {
                            continue;
                        }
                        if self.supported("patternProperties") {
                            if let Some(Value::Object(p)) = m.get("patternProperties") {
                                for (pat, _) in p {
                                    if crate::rx::is_match(pat, k) {
                                        continue 'next;
                                    }
                                }
                            }
                        }
                        if !self.valid(v, x) {
                            return false;
                        }
                        ev.props |= 1 << n;
                    }
                }
                true
            }
            "required" => {
                let r = match v {
                    Value::Array(r) => r,
                    _ => return self.bad(),
                };
                for k in r {
                    match k.as_str() {
                        Some(k) => {
                            if let Value::Object(o) = i {
                                if !o.contains_key(k) {
                                    return false;
                                }
                            }
                        }
                        None => return self.bad(),
                    }
                }
                true
            }
            "minProperties" => i.as_object().map_or(true, |o| o.len() >= self.uint(v)),
            "maxProperties" => i.as_object().map_or(true, |o| o.len() <= self.uint(v)),
            "propertyNames" => match i {
                Value::Object(o) => o.keys().all(|k| self.valid(v, &Value::String(k.clone()))),
                _ => true,
            },
            "dependentSchemas" => match (v, i) {
                (Value::Object(d), Value::Object(o)) => {
                    for (k, s) in d {
                        if o.contains_key(k) && !self.inplace(s, i, ev) {
                            return false;
                        }
                    }
                    true
                }
                (Value::Object(_), _) => true,
                _ => self.bad(),
            },
            "allOf" => {
                if !self.each_schema(v) {
                    return false;
                }
                for s in v.as_array().unwrap() {
                    if !self.inplace(s, i, ev) {
                        return false;
                    }
                }
                true
            }
            "anyOf" => {
                if !self.each_schema(v) {
                    return false;
                }
                let mut any = false;
                for s in v.as_array().unwrap() {
                    any |= self.inplace(s, i, ev);
                }
                any
            }
            "oneOf" => {
                if !self.each_schema(v) {
                    return false;
                }
                let mut n = 0;
                for s in v.as_array().unwrap() {
                    n += self.inplace(s, i, ev) as u32;
                }
                n == 1
            }
            "not" => !self.valid(v, i),
            "if" => {
                if self.inplace(v, i, ev) {
                    m.get("then").map_or(true, |s| self.inplace(s, i, ev))
                } else {
                    m.get("else").map_or(true, |s| self.inplace(s, i, ev))
                }
            }
            _ => true,
        }
    }
}
