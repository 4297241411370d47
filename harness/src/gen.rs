//! C03 identity of definitions, C04 closedness/termination, C05 histories, C06 inlining.
use crate::dynty::*;
use crate::explain;
use crate::jv::observe_value;
use crate::sx::*;
use crate::val::resolve;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;

const THOROUGH: bool = cfg!(feature = "thorough");

// ------------------------------------------------------------------------------------------ C03
/// three leaf types with symbolic names and ids
#[cfg(feature = "c03")]
fn leaves(names: [String; 3], ids: [String; 3]) {
    let gr = g();
    gr.max_edges = 0;
    gr.targets = 1;
    for (i, (n, d)) in names.into_iter().zip(ids).enumerate() {
        gr.n[i].name = n;
        gr.n[i].id = d;
        gr.n[i].edges = Some(vec![]);
    }
}
/// the content of a leaf is its index of the *first* type with the same id
#[cfg(feature = "c03")]
fn canon(k: usize) -> usize {
    (0..=k).find(|j| g().n[*j].id == g().n[k].id).unwrap()
}
#[cfg(feature = "c03")]
struct Leaf<const N: usize>;
#[cfg(feature = "c03")]
impl<const N: usize> JsonSchema for Leaf<N> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(g().n[N].name.clone())
    }
    fn schema_id() -> Cow<'static, str> {
        Cow::Owned(g().n[N].id.clone())
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        g().n[N].calls += 1;
        json_schema!({"const": canon(N)})
    }
}
#[cfg(feature = "c03")]
fn leaf_sub(gen: &mut SchemaGenerator, k: usize) -> Schema {
    match k {
        0 => gen.subschema_for::<Leaf<0>>(),
        1 => gen.subschema_for::<Leaf<1>>(),
        _ => gen.subschema_for::<Leaf<2>>(),
    }
}
#[cfg(feature = "c03")]
fn check_refs(refs: &[(usize, String)], defs: &Map<String, Value>) {
    let doc = json!({"$defs": defs});
    for (k, r) in refs {
        match resolve(&doc, r) {
            Some(t) => check(*t == json!({"const": canon(*k)}), "a reference resolves to another type's definition"),
            None => fail("a reference does not resolve"),
        }
    }
    for (a, ra) in refs {
        for (b, rb) in refs {
            if g().n[*a].id == g().n[*b].id {
                check(ra == rb, "one type got two different references");
            } else {
                check(ra != rb, "two types share a reference");
            }
        }
    }
}
#[cfg(feature = "c03")]
fn history(len: usize, clones: bool) {
    let mut gen = SchemaGenerator::default();
    let mut refs: Vec<(usize, String)> = Vec::new();
    for _ in 0..len {
        let op = choose(if clones { 4 } else { 3 });
        if op == 3 {
            gen = gen.clone();
            reach(2);
            continue;
        }
        let s = leaf_sub(&mut gen, op);
        match s.get("$ref").and_then(|r| r.as_str()) {
            Some(r) => refs.push((op, r.to_string())),
            None => fail("no reference generated"),
        }
        check(s.as_object().map(|o| o.len()) == Some(1), "reference schema has other keywords");
    }
    explain!("refs {:?} names {:?} ids {:?} defs {:?}", refs, g().n.iter().map(|n| &n.name).collect::<Vec<_>>(), g().n.iter().map(|n| &n.id).collect::<Vec<_>>(), gen.definitions());
    for (_, r) in &refs {
        observe(r.as_bytes());
    }
    let defs = gen.definitions().clone();
    check_refs(&refs, &defs);
    let n = (0..3).filter(|k| refs.iter().any(|(j, _)| canon(*j) == *k)).count();
    check(defs.len() == n, "wrong number of definitions");
    let taken = gen.take_definitions(false);
    check(taken == defs, "take_definitions differs from definitions()");
    check(gen.definitions().is_empty(), "take_definitions leaves definitions behind");
    reach(1);
}
/// names over a small alphabet around the disambiguation suffix, distinct ids
#[cfg(feature = "c03")]
pub fn ident_names() {
    let nm = || -> String { ["A", "A2", "A3", "A22"][choose(4)].to_string() };
    leaves([nm(), nm(), nm()], ["x".into(), "y".into(), "z".into()]);
    history(if THOROUGH { 4 } else { 3 }, false);
}
/// arbitrary short names and ids (may or may not collide)
#[cfg(feature = "c03")]
pub fn ident_any() {
    let nm = || -> String { ascii_n(1, 0, 0x7f) };
    let id = || -> String { ascii_n(1, 0, 0x7f) };
    leaves([nm(), nm(), "b".into()], [id(), id(), "cc".into()]);
    history(if THOROUGH { 3 } else { 2 }, false);
}
/// arbitrary short names, distinct ids: any collision pattern with names and generated suffixes
#[cfg(feature = "c03")]
pub fn ident_suffix() {
    let nm = || -> String { ascii_n(1 + choose(if THOROUGH { 3 } else { 2 }), b'0', b'9') };
    leaves([nm(), nm(), nm()], ["x".into(), "y".into(), "z".into()]);
    let mut gen = SchemaGenerator::default();
    let mut refs: Vec<(usize, String)> = Vec::new();
    for k in 0..3 {
        let s = leaf_sub(&mut gen, k);
        match s.get("$ref").and_then(|r| r.as_str()) {
            Some(r) => refs.push((k, r.to_string())),
            None => fail("no reference generated"),
        }
    }
    explain!("refs {:?} names {:?}", refs, g().n.iter().map(|n| &n.name).collect::<Vec<_>>());
    // here by definition key (the escaping inside the reference is C01's subject)
    let d = gen.definitions();
    check(d.len() == 3, "wrong number of definitions");
    for k in 0..3 {
        check(d.values().any(|v| *v == json!({"const": k})), "a type has no definition");
    }
    check((refs[0].1 != refs[1].1) & (refs[0].1 != refs[2].1) & (refs[1].1 != refs[2].1), "two types share a reference");
    reach(1);
}
/// the same with generator clones in the history
#[cfg(feature = "c03")]
pub fn ident_clone() {
    let nm = || -> String { ["A", "A2"][choose(2)].to_string() };
    leaves([nm(), nm(), nm()], ["x".into(), "y".into(), "z".into()]);
    history(if THOROUGH { 5 } else { 4 }, true);
}
/// definitions survive being taken and regenerated: the reference handed out before stays right
#[cfg(feature = "c03")]
pub fn ident_take() {
    let nm = || -> String { ["A", "A2"][choose(2)].to_string() };
    leaves([nm(), nm(), nm()], ["x".into(), "y".into(), "z".into()]);
    let mut gen = SchemaGenerator::default();
    let mut all: Map<String, Value> = Map::new();
    let mut refs = Vec::new();
    for _ in 0..(if THOROUGH { 5 } else { 4 }) {
        let op = choose(4);
        if op == 3 {
            for (k, v) in gen.take_definitions(cflag()) {
                if let Some(old) = all.get(&k) {
                    check(*old == v, "a definition name was reused for another type");
                }
                all.insert(k, v);
            }
            reach(2);
        } else {
            let s = leaf_sub(&mut gen, op);
            let r = s.get("$ref").and_then(|r| r.as_str()).map(|s| s.to_string());
            match r {
                Some(r) => {
                    check(resolve(&json!({"$defs": gen.definitions()}), &r).is_some(), "reference to a definition that the generator no longer has");
                    refs.push((op, r))
                }
                None => fail("no reference generated"),
            }
        }
    }
    for (k, v) in gen.take_definitions(false) {
        if let Some(old) = all.get(&k) {
            check(*old == v, "a definition name was reused for another type");
        }
        all.insert(k, v);
    }
    check_refs(&refs, &all);
    observe_value(&Value::Object(all));
    reach(1);
}

// ------------------------------------------------------------------------------------------ graphs
fn graph(nodes: u8, max_edges: u8, inline: bool, names: bool) {
    let gr = g();
    gr.max_edges = max_edges;
    gr.targets = nodes;
    for i in 0..nodes as usize {
        gr.n[i].id = format!("id{i}");
        gr.n[i].name = if names { ["N", "N2", "M/~%"][choose(3)].to_string() } else { format!("N{i}") };
        gr.n[i].inline = inline && cflag();
    }
}
/// schemars requires recursive types not to be inlined: no cycle of inline nodes
fn inline_acyclic() -> bool {
    fn visit(k: usize, path: u32) -> bool {
        if path >> k & 1 == 1 {
            return false;
        }
        if !g().n[k].inline {
            return true;
        }
        match &g().n[k].edges {
            None => true,
            Some(es) => es.clone().into_iter().all(|e| visit(e, path | 1 << k)),
        }
    }
    (0..MAXN).all(|k| visit(k, 0))
}
fn cyclic(k: usize, path: u32) -> bool {
    if path >> k & 1 == 1 {
        return true;
    }
    match &g().n[k].edges {
        None => false,
        Some(es) => es.clone().into_iter().any(|e| cyclic(e, path | 1 << k)),
    }
}
/// decide every edge before generating (needed when inline nodes may form cycles)
fn fix_edges(n: usize) {
    for k in 0..n {
        edges(k);
        assume(inline_acyclic());
    }
}
fn all_refs(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k == "$ref" {
                    if let Some(s) = x.as_str() {
                        out.push(s.to_string());
                        continue;
                    }
                }
                all_refs(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| all_refs(x, out)),
        _ => {}
    }
}
fn settings(path: usize, inline: bool) -> SchemaSettings {
    let mut s = SchemaSettings::default();
    s.definitions_path = ["/$defs", "#/definitions/", "/components/schemas", "/a~1b/c~0d~01", "#/x/y/z/", "/", ""][path].into();
    s.inline_subschemas = inline;
    s
}
fn check_closed(root: &Value, k: usize, depth: u32) {
    let mut rs = Vec::new();
    all_refs(root, &mut rs);
    for r in &rs {
        check(resolve(root, r).is_some(), "dangling reference");
    }
    check(describes(root, root, k, depth), "the schema does not describe the type graph");
    if !rs.is_empty() {
        reach(3);
    }
}

// ------------------------------------------------------------------------------------------ C04
#[cfg(feature = "c04")]
pub fn closed_graph() {
    graph(3, 2, false, false);
    let s = into_root(settings(0, false).into_generator(), 0);
    explain!("{}", s.as_value());
    observe_value(s.as_value());
    check_closed(s.as_value(), 0, 5);
    reach(1);
}
#[cfg(feature = "c04")]
pub fn closed_inline() {
    graph(3, if THOROUGH { 2 } else { 1 }, true, false);
    fix_edges(3);
    let s = into_root(settings(0, false).into_generator(), 0);
    explain!("{}", s.as_value());
    observe_value(s.as_value());
    check_closed(s.as_value(), 0, 5);
    reach(1);
}
/// where the definitions go
#[cfg(feature = "c04")]
pub fn closed_paths() {
    graph(2, 2, false, true);
    let p = choose(7);
    let mut gen = settings(p, false).into_generator();
    let s = if cflag() { root(&mut gen, 0) } else { into_root(gen, 0) };
    explain!("{}", s.as_value());
    observe_value(s.as_value());
    check_closed(s.as_value(), 0, 4);
    if s.as_value().get("$ref").is_none() {
        reach(1);
    }
}
#[cfg(feature = "c04")]
pub fn closed_inline_setting() {
    graph(3, if THOROUGH { 2 } else { 1 }, true, false);
    fix_edges(3);
    let s = into_root(settings(choose(2), true).into_generator(), 0);
    explain!("{}", s.as_value());
    observe_value(s.as_value());
    check_closed(s.as_value(), 0, 5);
    reach(1);
}

/// a root schema generated while another one is being generated is complete by itself, and
/// does not disturb the outer one
#[cfg(feature = "c04")]
pub fn closed_nested() {
    graph(3, if THOROUGH { 2 } else { 1 }, false, true);
    let target = 1 + choose(2);
    g().nested = Some((target, choose(2)));
    let mut gen = settings(0, false).into_generator();
    let s = if cflag() { root(&mut gen, 0) } else { into_root(gen, 0) };
    let n = g().nested_out.take().unwrap();
    explain!("outer {} nested {}", s.as_value(), n.as_value());
    observe_value(s.as_value());
    observe_value(n.as_value());
    check_closed(n.as_value(), target, 5);
    check_closed(s.as_value(), 0, 5);
    reach(1);
}

// ------------------------------------------------------------------------------------------ C05
#[cfg(feature = "c05")]
fn any_settings() -> SchemaSettings {
    match choose(4) {
        0 => SchemaSettings::draft07(),
        1 => SchemaSettings::draft2019_09(),
        2 => SchemaSettings::openapi3(),
        _ => SchemaSettings::draft2020_12(),
    }
}
/// root_schema_for == into_root_schema_for, repeated calls agree, the generator is reusable
#[cfg(feature = "c05")]
pub fn hist_repeat() {
    graph(2, 2, false, true);
    let st = any_settings().with(|s| s.inline_subschemas = cflag());
    let fresh = into_root(st.clone().into_generator(), 0);
    let mut gen = st.into_generator();
    let a = root(&mut gen, 0);
    let defs1 = gen.definitions().clone();
    let b = root(&mut gen, 0);
    let defs2 = gen.definitions().clone();
    let c = into_root(gen.clone(), 0);
    let d = into_root(gen, 0);
    explain!("fresh {} first {} second {} clone {} into {}", fresh.as_value(), a.as_value(), b.as_value(), c.as_value(), d.as_value());
    observe_value(a.as_value());
    check(a == fresh, "root_schema_for and into_root_schema_for disagree");
    check(b == a, "generating the same root schema twice gives different schemas");
    check(defs1 == defs2, "generating the same root schema twice changes the definitions");
    check(c == a, "a cloned generator produces a different schema");
    check(d == a, "into_root_schema_for on a used generator differs");
    reach(1);
}
/// whatever was generated before, the next root schema is closed and right
#[cfg(feature = "c05")]
pub fn hist_any() {
    graph(3, 1, false, true);
    let st = settings(choose(2), false);
    let mut gen = st.into_generator();
    let n = if THOROUGH { 3 } else { 2 };
    for _ in 0..n {
        match choose(8) {
            0 => {
                sub(&mut gen, 0);
            }
            1 => {
                sub(&mut gen, 1);
            }
            2 => {
                sub(&mut gen, 2);
            }
            3 => {
                let s = root(&mut gen, 1);
                check_closed(s.as_value(), 1, 4);
            }
            4 => {
                let s = root(&mut gen, 2);
                check_closed(s.as_value(), 2, 4);
            }
            5 => {
                gen.take_definitions(cflag());
                reach(2);
            }
            6 => gen = gen.clone(),
            _ => {
                let r = gen.root_schema_for_value(&json!({"a": [1]}));
                check(r.is_ok(), "root_schema_for_value failed");
            }
        }
    }
    let a = root(&mut gen, 0);
    explain!("reused {}", a.as_value());
    observe_value(a.as_value());
    check_closed(a.as_value(), 0, 5);
    let b = into_root(gen, 0);
    check_closed(b.as_value(), 0, 5);
    check(a == b, "root_schema_for and into_root_schema_for disagree on a used generator");
    reach(1);
}

#[cfg(feature = "c05")]
fn mark(s: &mut Schema) {
    let before = s.as_value().clone();
    s.insert("x-first".to_string(), before);
}
#[cfg(feature = "c05")]
fn mark_again(s: &mut Schema) {
    let (seen, again) = (s.get("x-first").is_some(), s.get("x-second").is_some());
    s.insert("x-second".to_string(), json!([seen, again]));
}
/// the transforms are applied in order, once, to the root schema and to every definition taken
#[cfg(feature = "c05")]
pub fn hist_transforms() {
    graph(3, 1, false, false);
    g().n[1].forward = cflag();
    g().n[2].forward = cflag();
    let st = settings(choose(2), cflag());
    let mut plain = st.clone().into_generator();
    let mut gen = st.with_transform(mark).with_transform(mark_again).into_generator();
    let apply = |s: &mut Schema| {
        mark(s);
        mark_again(s);
    };
    for k in [1, 2] {
        if cflag() {
            let (a, b) = (sub(&mut plain, k), sub(&mut gen, k));
            check(a == b, "the transforms are applied to a subschema");
        }
    }
    let mut a = root(&mut plain, 0);
    apply(&mut a);
    let b = root(&mut gen, 0);
    explain!("root {}", b.as_value());
    observe_value(b.as_value());
    check(a == b, "the transforms of a root schema are not applied in order, once");
    check(into_root(gen.clone(), 0) == b, "root_schema_for and into_root_schema_for disagree on the transforms");
    check(plain.definitions() == gen.definitions(), "the transforms are applied to the definitions of a generator");
    let mut want = plain.take_definitions(false);
    if cflag() {
        for d in want.values_mut() {
            let mut s = Schema::try_from(d.clone()).unwrap();
            apply(&mut s);
            *d = s.into();
        }
        let got = gen.take_definitions(true);
        explain!("taken {:?}\nwanted {:?}", got, want);
        check(got == want, "the transforms are not applied in order, once, to each definition");
        if want.values().any(|d| d.get("$ref").is_some()) {
            reach(2);
        }
    } else {
        check(gen.take_definitions(false) == want, "definitions are transformed although it was not asked for");
    }
    check(gen.definitions().is_empty(), "take_definitions leaves definitions behind");
    reach(1);
}

// ------------------------------------------------------------------------------------------ C06
/// inlining only changes where schemas are written, not what they say
#[cfg(feature = "c06")]
pub fn inline_equiv() {
    graph(3, 2, false, false);
    let s = into_root(settings(0, true).into_generator(), 0);
    explain!("{}", s.as_value());
    observe_value(s.as_value());
    let v = s.as_value();
    check(describes(v, v, 0, 5), "the inlined schema does not describe the type graph");
    let mut rs = Vec::new();
    all_refs(v, &mut rs);
    for r in &rs {
        check(resolve(v, r).is_some(), "dangling reference");
    }
    if !cyclic(0, 0) {
        check(rs.is_empty(), "reference left although the type is not recursive");
        check(v.get("$defs").is_none(), "definitions left although everything is inlined");
        reach(2);
    } else {
        check(!rs.is_empty(), "recursive type without a reference");
        reach(3);
    }
    reach(1);
}
#[cfg(feature = "c06")]
pub fn inline_mixed() {
    graph(3, if THOROUGH { 2 } else { 1 }, true, true);
    fix_edges(3);
    let flag = cflag();
    let mut gen = settings(0, flag).into_generator();
    let s = root(&mut gen, 0);
    explain!("{}", s.as_value());
    let v = s.as_value();
    observe_value(v);
    check(describes(v, v, 0, 5), "the schema does not describe the type graph");
    // a type that asks for it is always written inline: it never becomes a definition
    for d in v.get("$defs").and_then(|d| d.as_object()).into_iter().flatten() {
        let k = d.1.pointer("/properties/k/const").and_then(|k| k.as_u64()).unwrap_or(99) as usize;
        check(k < MAXN && !g().n[k].inline, "an inline type became a definition");
        if flag {
            check(cyclic(k, 0), "definition of a non-recursive type although everything is inlined");
        }
    }
    reach(1);
}
