//! C23: generic types are told apart by what they are made of.
use crate::explain;
use crate::sx::*;
use crate::val::resolve;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::ops::{Bound, Range};

const THOROUGH: bool = cfg!(feature = "thorough");
struct Inner {
    name: String,
    id: String,
    inline: bool,
}
static mut INNER: Vec<Inner> = Vec::new();
fn inner(k: usize) -> &'static Inner {
    unsafe { &(&*std::ptr::addr_of!(INNER))[k] }
}
/// two types with symbolic names and ids, and different schemas
pub struct I<const K: usize>;
impl<const K: usize> JsonSchema for I<K> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Borrowed(&inner(K).name)
    }
    fn schema_id() -> Cow<'static, str> {
        Cow::Borrowed(&inner(K).id)
    }
    fn inline_schema() -> bool {
        inner(K).inline
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({ "const": K })
    }
}
type A = I<0>;
type B = I<1>;

#[derive(JsonSchema)]
pub struct Gen<T> {
    t: T,
}
#[derive(JsonSchema)]
pub struct Gen2<T, U> {
    t: T,
    u: U,
}
#[derive(JsonSchema)]
pub struct Tup<T, U>(T, U);
#[derive(JsonSchema)]
pub enum En<T> {
    A(T),
    B,
}
#[derive(JsonSchema)]
#[serde(tag = "t")]
pub enum Tagged<T> {
    A { v: T },
    B,
}
#[derive(JsonSchema)]
#[schemars(_unstable_ref_variants)]
pub enum RefA<T> {
    A { v: T },
    B,
}
#[derive(JsonSchema)]
#[schemars(_unstable_ref_variants)]
pub enum RefB<T> {
    B { w: T },
    A(u8),
}
#[derive(JsonSchema)]
#[schemars(rename = "R_{T}")]
pub struct Ren<T> {
    t: T,
}
#[derive(JsonSchema)]
#[schemars(rename = "Gen")]
pub struct Fixed<T> {
    f: T,
}
#[derive(JsonSchema)]
#[schemars(inline)]
pub struct Inl<T> {
    t: T,
}
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct Transparent<T>(T);
#[derive(JsonSchema)]
pub struct New<T>(T);
#[derive(JsonSchema)]
#[schemars(extend("n" = N))]
pub struct Const<const N: usize> {}
#[derive(JsonSchema)]
#[schemars(extend("n" = [N, M]))]
pub struct Const2<const N: usize, const M: usize> {}
#[derive(JsonSchema)]
#[schemars(extend("n" = N))]
pub struct Mixed<T, const N: usize> {
    t: T,
}
#[derive(JsonSchema)]
#[schemars(rename = "C_{N}_{T}", extend("n" = N))]
pub struct RenConst<T, const N: usize> {
    t: T,
}
#[derive(JsonSchema)]
pub struct With<T> {
    #[schemars(with = "Vec<T>")]
    t: PhantomData<T>,
}
fn generic<T: JsonSchema>(g: &mut SchemaGenerator) -> Schema {
    g.subschema_for::<Vec<T>>()
}
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fun<T> {
    #[schemars(schema_with = "generic::<T>")]
    t: PhantomData<T>,
}
pub trait Tr {
    type Out;
}
impl Tr for A {
    type Out = A;
}
impl Tr for B {
    type Out = B;
}
#[derive(JsonSchema)]
#[schemars(bound = "T::Out: JsonSchema")]
pub struct Assoc<T: Tr> {
    t: T::Out,
}
#[derive(JsonSchema)]
pub struct Ref<'a, T> {
    t: &'a T,
}
#[derive(JsonSchema)]
pub struct Skips<T, U> {
    t: T,
    #[serde(skip)]
    u: U,
}
#[derive(JsonSchema)]
#[serde(from = "Gen<T>")]
pub struct From<T> {
    f: T,
}
mod m1 {
    #[derive(super::JsonSchema)]
    pub struct S {
        a: bool,
    }
    #[derive(super::JsonSchema)]
    pub struct G<T> {
        a: T,
    }
    pub mod m {
        #[derive(schemars::JsonSchema)]
        pub struct S {
            c: bool,
        }
    }
}
mod m2 {
    #[derive(super::JsonSchema)]
    pub struct S {
        b: bool,
    }
    #[derive(super::JsonSchema)]
    pub struct G<T> {
        b: T,
    }
}
/// two types renamed to the same name
#[derive(JsonSchema)]
#[schemars(rename = "Same")]
pub struct Same1 {
    a: bool,
}
#[derive(JsonSchema)]
#[schemars(rename = "Same")]
pub struct Same2 {
    b: bool,
}
#[derive(JsonSchema)]
#[serde(rename = "SameGen")]
pub struct SameGen1<T> {
    a: T,
}
#[derive(JsonSchema)]
#[serde(rename = "SameGen")]
pub struct SameGen2<T> {
    b: T,
}
#[derive(JsonSchema)]
#[schemars(rename = "P_{T}")]
pub struct Pat1<T> {
    a: T,
}
#[derive(JsonSchema)]
#[schemars(rename = "P_{T}")]
pub struct Pat2<T> {
    b: T,
}

#[derive(JsonSchema)]
#[schemars(rename = "Fixed")]
pub struct Fixed2<T> {
    f: T,
}
#[derive(JsonSchema)]
pub struct Plain {
    a: bool,
}
fn local1(g: &mut SchemaGenerator) -> Schema {
    #[derive(JsonSchema)]
    pub struct Plain {
        b: bool,
    }
    g.subschema_for::<Plain>()
}
fn local2(g: &mut SchemaGenerator) -> Schema {
    #[derive(JsonSchema)]
    pub struct Plain {
        c: bool,
    }
    g.subschema_for::<Plain>()
}
struct E {
    name: &'static str,
    sub: fn(&mut SchemaGenerator) -> Schema,
}
macro_rules! es {
    ($($t:ty),* $(,)?) => { &[$(E { name: stringify!($t), sub: |g| g.subschema_for::<$t>() }),*] };
}
/// several types with the same module path and name
const RENAMED: &[E] = es![Gen<A>, Fixed<A>, Gen<B>, Same1, Same2, SameGen1<A>, SameGen2<A>, Pat1<A>, Pat2<A>];
const LOCAL: &[E] = &[E { name: "A", sub: |g| g.subschema_for::<A>() }, E { name: "Plain", sub: |g| g.subschema_for::<Plain>() }, E { name: "Plain in local1", sub: local1 }, E { name: "Plain in local2", sub: local2 }];

type R<T> = Range<T>;
#[rustfmt::skip]
const STD: &[E] = es![
    A, B, R<A>, R<B>, Bound<A>, Bound<B>, Result<A, B>, Result<B, A>, Result<A, A>,
    R<Option<A>>, R<Option<B>>, R<Vec<A>>, R<Vec<B>>, R<VecDeque<A>>, R<[A; 0]>, R<[A; 1]>, R<[A; 11]>, R<[B; 1]>, R<[[A; 1]; 1]>,
    R<(A,)>, R<(B,)>, R<(A, B)>, R<(B, A)>, R<(A, (B,))>, R<((A, B),)>, R<BTreeSet<A>>, R<BTreeSet<B>>,
    R<BTreeMap<String, A>>, R<BTreeMap<String, B>>, R<BTreeMap<u8, A>>, R<BTreeMap<i8, A>>, R<Box<A>>, R<R<A>>, R<R<B>>, R<Result<A, B>>,
    R<Bound<A>>, R<u8>, R<u16>, R<i8>, R<bool>, R<char>, R<String>, R<f32>, R<f64>, R<()>,
];
#[rustfmt::skip]
const MORE: &[E] = es![
    R<A>, R<arrayvec::ArrayVec<A, 1>>, R<arrayvec::ArrayVec<B, 1>>, R<arrayvec::ArrayVec<A, 11>>, R<either::Either<A, B>>, R<either::Either<B, A>>,
    R<smallvec::SmallVec<[A; 1]>>, R<smallvec::SmallVec<[B; 1]>>, R<indexmap::IndexMap<String, A>>, R<indexmap::IndexMap<String, B>>, R<indexmap::IndexSet<A>>,
    R<std::sync::Arc<A>>, R<std::num::NonZeroU8>, R<std::num::NonZeroU16>, R<std::num::NonZeroI8>, R<u8>, R<std::time::Duration>, R<std::time::SystemTime>,
    R<serde_json::Value>, R<serde_json::Number>, R<std::ffi::OsString>, R<std::ffi::CString>, R<std::net::IpAddr>, R<std::net::Ipv4Addr>, R<std::net::Ipv6Addr>, R<Schema>,
];
#[rustfmt::skip]
const DERIVED: &[E] = es![
    Gen<A>, Gen<B>, Gen<Gen<A>>, Gen<Gen<B>>, Gen2<A, B>, Gen2<B, A>, Gen2<A, A>, Gen2<Gen2<A, B>, A>, Gen2<A, Gen2<B, A>>, Gen2<(A, B), A>, Gen2<A, (B, A)>,
    Tup<A, B>, Tup<B, A>, En<A>, En<B>, Tagged<A>, Tagged<B>, RefA<A>, RefA<B>, RefB<A>, Ren<A>, Ren<B>, Fixed2<A>, Fixed2<B>, Inl<A>, Gen<Inl<A>>, Gen<Inl<B>>,
    Transparent<A>, Gen<Transparent<A>>, New<A>, New<B>, Gen<New<A>>, Const<1>, Const<12>, Const2<1, 12>, Const2<21, 1>, Const2<11, 2>, Const2<1, 1>, Mixed<A, 1>, Mixed<A, 2>, Mixed<B, 1>,
    RenConst<A, 1>, RenConst<A, 11>, RenConst<B, 1>, With<A>, With<B>, Fun<A>, Fun<B>, Assoc<A>, Assoc<B>, Ref<'static, A>, Ref<'static, B>, Skips<A, B>, Skips<B, A>, From<A>, From<B>,
    m1::S, m2::S, m1::m::S, m1::G<A>, m2::G<A>, m1::G<B>, Same1, SameGen1<A>, SameGen1<B>, Pat1<A>, Pat1<B>, 
];

fn expand(root: &Value, v: &Value, depth: usize) -> Value {
    if depth > 12 {
        fail("a schema of a non-recursive type is recursive");
    }
    match v {
        Value::Array(a) => a.iter().map(|x| expand(root, x, depth)).collect(),
        Value::Object(m) => {
            let mut r = Map::new();
            for (k, x) in m {
                if k == "$ref" {
                    match x.as_str().and_then(|r| resolve(root, r)) {
                        Some(t) => {
                            r.insert("=".into(), expand(root, t, depth + 1));
                        }
                        None => fail("dangling reference"),
                    }
                } else {
                    r.insert(k.clone(), expand(root, x, depth));
                }
            }
            Value::Object(r)
        }
        _ => v.clone(),
    }
}
fn init() {
    let mut b = ascii_n(1, b'a', b'b');
    if cflag() {
        b.push(byte(b'a', b'b') as char);
    }
    let a = Inner { name: "X".into(), id: "a".into(), inline: cflag() };
    let b = Inner { name: if cflag() { "X" } else { "Y" }.into(), id: b, inline: a.inline };
    assume(a.id != b.id);
    unsafe { *std::ptr::addr_of_mut!(INNER) = vec![a, b] }
}
fn generated(es: &[&E]) -> Vec<Value> {
    let mut g = SchemaSettings::default().into_generator();
    let ss: Vec<Value> = es.iter().map(|e| (e.sub)(&mut g).to_value()).collect();
    let root = json!({ "$defs": g.take_definitions(true) });
    explain!("{ss:?} with {root}");
    ss.iter().map(|s| expand(&root, s, 0)).collect()
}
/// two types from one generator: each gets the schema it has alone
fn identities(es: &[E], groups: &[u8], known: &'static str) {
    init();
    let (i, j) = (choose(es.len() as u8), choose(es.len() as u8));
    assume(i != j);
    let (x, y) = (&es[i], &es[j]);
    explain!("{} and {}", x.name, y.name);
    let both = generated(&[x, y]);
    let alone = [generated(&[x]), generated(&[y])].concat();
    observe_value_short(&alone);
    check(both[0] == alone[0], "the schema of a type depends on which type is generated after it");
    if !groups.is_empty() && groups[i] == groups[j] {
        check(both[1] == alone[1], known);
    }
    check(both[1] == alone[1], "a type got the definition of another type");
    reach(if alone[0] == alone[1] { 2 } else { 1 });
}
fn observe_value_short(v: &[Value]) {
    for x in v {
        crate::jv::observe_value(x);
    }
}
#[cfg(feature = "c23")]
pub fn id_std() {
    identities(STD, &[], "")
}
#[cfg(feature = "c23")]
pub fn id_more() {
    identities(MORE, &[], "")
}
#[cfg(feature = "c23")]
pub fn id_derived() {
    identities(DERIVED, &[], "")
}
/// types of one module renamed to the same name
#[cfg(feature = "c23")]
pub fn id_renamed() {
    identities(RENAMED, &[0, 0, 1, 2, 2, 3, 3, 4, 4], "types of one module that are renamed to the same name share a definition")
}
/// types with the same name in different functions of a module
#[cfg(feature = "c23")]
pub fn id_local() {
    identities(LOCAL, &[1, 0, 0, 0], "types with the same name in different functions of a module share a definition")
}
