//! Types whose JsonSchema impl is driven by (symbolic) run-time data: a type graph.
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;

pub const MAXN: usize = 4;
#[derive(Default)]
pub struct Node {
    pub name: String,
    pub id: String,
    pub inline: bool,
    /// its schema is that of its first edge
    pub forward: bool,
    /// outgoing references, decided on first use
    pub edges: Option<Vec<usize>>,
    pub calls: u32,
}
#[derive(Default)]
pub struct Graph {
    pub n: [Node; MAXN],
    pub max_edges: u8,
    pub targets: u8,
    /// extra keyword added to every node (exercised by transforms)
    pub extra: Option<(&'static str, Value)>,
    /// node 0 generates a root schema of its own for this node while its schema is generated,
    /// before its `.1`th reference (once)
    pub nested: Option<(usize, usize)>,
    pub nested_out: Option<Schema>,
}
pub static mut G: Option<Graph> = None;
pub fn g() -> &'static mut Graph {
    unsafe { (*std::ptr::addr_of_mut!(G)).get_or_insert_with(Graph::default) }
}
pub struct D<const N: usize>;
pub fn sub(gen: &mut SchemaGenerator, k: usize) -> Schema {
    match k {
        0 => gen.subschema_for::<D<0>>(),
        1 => gen.subschema_for::<D<1>>(),
        2 => gen.subschema_for::<D<2>>(),
        _ => gen.subschema_for::<D<3>>(),
    }
}
pub fn root(gen: &mut SchemaGenerator, k: usize) -> Schema {
    match k {
        0 => gen.root_schema_for::<D<0>>(),
        1 => gen.root_schema_for::<D<1>>(),
        2 => gen.root_schema_for::<D<2>>(),
        _ => gen.root_schema_for::<D<3>>(),
    }
}
pub fn into_root(gen: SchemaGenerator, k: usize) -> Schema {
    match k {
        0 => gen.into_root_schema_for::<D<0>>(),
        1 => gen.into_root_schema_for::<D<1>>(),
        2 => gen.into_root_schema_for::<D<2>>(),
        _ => gen.into_root_schema_for::<D<3>>(),
    }
}
pub fn edges(k: usize) -> &'static [usize] {
    let gr = g();
    let (t, m) = (gr.targets, gr.max_edges);
    let n = &mut gr.n[k];
    if n.edges.is_none() {
        let c = crate::sx::choose(m + 1);
        let v = (0..c).map(|_| crate::sx::choose(t)).collect();
        n.edges = Some(v);
    }
    g().n[k].edges.as_deref().unwrap()
}
fn nested(gen: &mut SchemaGenerator, k: usize, i: usize) {
    if let (0, Some((target, at))) = (k, g().nested) {
        if i == at || i == 9 {
            g().nested = None;
            let s = root(gen, target);
            g().nested_out = Some(s);
        }
    }
}
fn build(gen: &mut SchemaGenerator, k: usize) -> Schema {
    g().n[k].calls += 1;
    if g().n[k].forward {
        if let Some(e) = edges(k).first() {
            return sub(gen, *e);
        }
    }
    let mut p = Map::new();
    p.insert("k".into(), json!({"const": k}));
    for (i, e) in edges(k).iter().enumerate() {
        nested(gen, k, i);
        let s = sub(gen, *e);
        p.insert(format!("e{i}"), s.into());
    }
    nested(gen, k, 9);
    let mut m = Map::new();
    m.insert("properties".into(), Value::Object(p));
    if let Some((kw, v)) = &g().extra {
        m.insert(kw.to_string(), v.clone());
    }
    Schema::from(m)
}
impl<const N: usize> JsonSchema for D<N> {
    fn inline_schema() -> bool {
        g().n[N].inline
    }
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(g().n[N].name.clone())
    }
    fn schema_id() -> Cow<'static, str> {
        Cow::Owned(g().n[N].id.clone())
    }
    fn json_schema(gen: &mut SchemaGenerator) -> Schema {
        build(gen, N)
    }
}

/// Does `s` (inside `root`) describe node k of the graph, unrolled to `depth`?
pub fn describes(root: &Value, s: &Value, k: usize, depth: u32) -> bool {
    let mut s = s;
    let mut hops = 0;
    while let Some(r) = s.get("$ref") {
        let r = match r.as_str() {
            Some(r) => r,
            None => return false,
        };
        if s.as_object().map(|o| o.len()) != Some(1) && hops > 0 {
            return false;
        }
        s = match crate::val::resolve(root, r) {
            Some(t) => t,
            None => return false,
        };
        hops += 1;
        if hops > 6 {
            return false;
        }
    }
    let p = match s.get("properties").and_then(|p| p.as_object()) {
        Some(p) => p,
        None => return false,
    };
    if p.get("k").and_then(|c| c.get("const")).and_then(|c| c.as_u64()) != Some(k as u64) {
        return false;
    }
    let es = edges(k);
    if p.len() != es.len() + 1 {
        return false;
    }
    if depth == 0 {
        return true;
    }
    for (i, e) in es.iter().enumerate() {
        match p.get(&format!("e{i}")) {
            Some(x) if describes(root, x, *e, depth - 1) => {}
            _ => return false,
        }
    }
    true
}
