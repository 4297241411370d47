//! Is a schema well formed under its dialect's meta-schema?  Written from the specifications.
use crate::val::Dialect::{self, *};
use serde_json::Value;

/// the first keyword found to be malformed
pub static mut BAD: &str = "";
/// OpenAPI schemas had a list of types, the type null, a list of item schemas
pub static mut TYPE_LIST: bool = false;
pub static mut NULL_TYPE: bool = false;
pub static mut ITEM_LIST: bool = false;
const KNOWN: &[&str] = &[
    "$ref", "$defs", "definitions", "properties", "patternProperties", "dependentSchemas", "allOf", "anyOf", "oneOf", "prefixItems", "items", "additionalProperties", "additionalItems", "unevaluatedProperties",
    "unevaluatedItems", "not", "if", "then", "else", "contains", "propertyNames", "required", "dependentRequired", "type", "enum", "examples", "nullable",
];
fn strings(v: &Value) -> bool {
    v.as_array().is_some_and(|a| a.iter().all(Value::is_string) && unique(a))
}
fn unique(a: &[Value]) -> bool {
    (0..a.len()).all(|i| !a[..i].contains(&a[i]))
}
fn one_type(v: &Value) -> bool {
    matches!(v.as_str(), Some("null" | "boolean" | "object" | "array" | "number" | "string" | "integer"))
}
fn count(v: &Value) -> bool {
    v.as_u64().is_some() || v.as_f64().is_some_and(|f| f >= 0.0 && f == (f as u64) as f64)
}
fn list(v: &Value, d: Dialect) -> bool {
    v.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|s| wf(s, d)))
}
fn map(v: &Value, d: Dialect) -> bool {
    v.as_object().is_some_and(|o| o.values().all(|s| wf(s, d)))
}
pub fn wf(s: &Value, d: Dialect) -> bool {
    let m = match s {
        Value::Bool(_) => return d != Oas3,
        Value::Object(m) => m,
        _ => return false,
    };
    m.iter().all(|(k, v)| {
        let ok = keyword(k, v, d);
        if !ok && unsafe { BAD.is_empty() } {
            unsafe { BAD = KNOWN.iter().find(|x| *x == k).unwrap_or(&"another keyword") };
        }
        ok
    })
}
fn keyword(k: &str, v: &Value, d: Dialect) -> bool {
    match k {
        "$ref" | "$id" | "$schema" | "$anchor" | "$comment" | "title" | "description" | "format" | "pattern" | "contentEncoding" | "contentMediaType" => v.is_string(),
        "$defs" => d == D7 || d == Oas3 || map(v, d),
        "dependentSchemas" => d == D7 || d == Oas3 || map(v, d),
        "definitions" | "properties" | "patternProperties" => map(v, d),
        "allOf" | "anyOf" | "oneOf" => list(v, d),
        "prefixItems" => !matches!(d, D2020) || list(v, d),
        "items" => {
            if d == Oas3 && v.is_array() {
                unsafe { ITEM_LIST = true };
            }
            wf(v, d) || (d != D2020 && list(v, d))
        }
        "additionalProperties" => v.is_boolean() || wf(v, d),
        "additionalItems" => !matches!(d, D7 | D2019) || wf(v, d),
        "unevaluatedProperties" | "unevaluatedItems" => !matches!(d, D2019 | D2020) || wf(v, d),
        "not" | "if" | "then" | "else" | "contains" | "propertyNames" => wf(v, d),
        "maxLength" | "minLength" | "maxItems" | "minItems" | "maxProperties" | "minProperties" | "minContains" | "maxContains" => count(v),
        "maximum" | "minimum" => v.is_number(),
        "exclusiveMaximum" | "exclusiveMinimum" => v.is_number(),
        "multipleOf" => v.as_f64().is_some_and(|f| f > 0.0),
        "required" => strings(v) && (d != Oas3 || v.as_array().is_some_and(|a| !a.is_empty())),
        "dependentRequired" => v.as_object().is_some_and(|o| o.values().all(strings)),
        "type" => {
            if d == Oas3 {
                match v {
                    Value::Array(a) if a.iter().any(|t| t == "null") => unsafe { NULL_TYPE = true },
                    Value::Array(_) => unsafe { TYPE_LIST = true },
                    v => unsafe { NULL_TYPE |= v == "null" },
                }
            }
            one_type(v) || v.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(one_type) && unique(a))
        }
        "enum" => v.as_array().is_some_and(|a| d != Oas3 || !a.is_empty()),
        "examples" => v.is_array(),
        "uniqueItems" | "deprecated" | "readOnly" | "writeOnly" | "nullable" => v.is_boolean(),
        _ => true,
    }
}
