//! C31: what types are called: their title, and the key of their definition.
use crate::explain;
use crate::sx::*;
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{json_schema, JsonSchema, Schema};
use serde_json::json;
use std::borrow::Cow;
use std::collections::*;

static mut NAMES: [String; 2] = [String::new(), String::new()];
/// a type with a symbolic name
pub struct N<const I: usize>;
impl<const I: usize> JsonSchema for N<I> {
    fn schema_name() -> Cow<'static, str> {
        Cow::Owned(unsafe { (*std::ptr::addr_of!(NAMES))[I].clone() })
    }
    fn schema_id() -> Cow<'static, str> {
        if I == 0 { "id of 0" } else { "id of 1" }.into()
    }
    fn inline_schema() -> bool {
        true
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        json_schema!({ "type": if I == 0 { "boolean" } else { "integer" } })
    }
}
type A = N<0>;
type B = N<1>;

#[allow(dead_code)]
#[allow(non_camel_case_types)]
mod t {
    use super::*;
    fn via(_: &mut SchemaGenerator) -> Schema {
        json_schema!({ "type": "string" })
    }
    #[derive(JsonSchema)]
    pub struct Plain(pub bool, pub bool);
    #[derive(JsonSchema)]
    pub struct Generic<X, Y> {
        pub x: X,
        pub y: Y,
    }
    #[derive(JsonSchema)]
    pub enum Choice<X> {
        One(X),
        Two,
    }
    #[derive(JsonSchema)]
    #[serde(rename = "by serde/~")]
    pub struct Serde<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "by schemars")]
    pub struct Schemars {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[serde(rename = "by serde")]
    #[schemars(rename = "over serde")]
    pub struct Over {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "over serde {X}")]
    #[serde(rename = "by serde")]
    pub struct OverGeneric<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{X}")]
    pub struct Only<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{Y} then {X} then {Y}")]
    pub struct Twice<X, Y> {
        pub x: X,
        pub y: Y,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{{X}}{X}{{{X}}}")]
    pub struct Braces<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{{}}")]
    pub struct OnlyBraces<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "no braces here")]
    pub struct NoBraces<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{K} of {X}, {L}")]
    pub struct Consts<X, const K: i8, const L: char> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{K}")]
    pub struct OnlyConst<X, const K: bool> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[serde(rename = "{X}")]
    pub struct SerdeBraces<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "C{X}")]
    pub enum RenamedChoice<X> {
        One(X),
        Two,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "with {X}", inline)]
    pub struct Inline<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "u{X}")]
    pub struct Unused<X> {
        pub p: std::marker::PhantomData<X>,
    }
    #[derive(JsonSchema)]
    #[serde(rename(serialize = "written", deserialize = "read"))]
    pub struct Both {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[serde(rename_all = "UPPERCASE")]
    pub struct RenameAll {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[schemars(title = "a title")]
    pub struct Titled {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    pub struct r#fn {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[serde(transparent)]
    pub struct Transparent<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[serde(transparent)]
    #[schemars(rename = "transparent {X}")]
    pub struct TransparentNamed<X> {
        pub x: X,
    }
    #[derive(JsonSchema)]
    #[schemars(with = "A")]
    pub struct With {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[schemars(schema_with = "via")]
    pub struct SchemaWith {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[serde(from = "bool")]
    pub struct From1 {
        pub x: bool,
    }
    impl From<bool> for From1 {
        fn from(x: bool) -> Self {
            From1 { x }
        }
    }
    #[derive(JsonSchema)]
    pub struct Life<'a> {
        pub x: &'a str,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{X} of life")]
    pub struct LifeGeneric<'a, X> {
        pub x: &'a X,
    }
    #[derive(JsonSchema)]
    #[schemars(rename = "{type_of} & {T1}")]
    pub struct Underscore<T1, type_of> {
        pub x: T1,
        pub y: type_of,
    }
    pub mod other {
        pub struct Far {
            pub x: bool,
        }
    }
    #[derive(JsonSchema)]
    #[serde(remote = "other::Far")]
    pub struct Near {
        pub x: bool,
    }
    #[derive(JsonSchema)]
    #[serde(remote = "other::Far")]
    #[schemars(rename = "renamed far")]
    pub struct NearNamed {
        pub x: bool,
    }
}
use t::*;

struct Case {
    name: fn() -> Cow<'static, str>,
    want: fn(&str, &str) -> String,
    root: fn(SchemaGenerator) -> Schema,
    sub: fn(&mut SchemaGenerator) -> Schema,
    inline: fn() -> bool,
}
macro_rules! n {
    ($t:ty, |$a:ident, $b:ident| $e:expr) => {
        Case {
            name: <$t as JsonSchema>::schema_name,
            want: |$a: &str, $b: &str| { let _ = ($a, $b); ($e).to_string() },
            root: |g| g.into_root_schema_for::<$t>(),
            sub: |g| g.subschema_for::<$t>(),
            inline: <$t as JsonSchema>::inline_schema,
        }
    };
}
#[rustfmt::skip]
const DERIVED: &[Case] = &[
    n!(Plain, |a, b| "Plain"),
    n!(Generic<A, B>, |a, b| "Generic"),
    n!(Choice<A>, |a, b| "Choice"),
    n!(Serde<A>, |a, b| "by serde/~"),
    n!(Schemars, |a, b| "by schemars"),
    n!(Over, |a, b| "over serde"),
    n!(OverGeneric<A>, |a, b| format!("over serde {a}")),
    n!(Only<A>, |a, b| a),
    n!(Only<Only<B>>, |a, b| b),
    n!(Twice<A, B>, |a, b| format!("{b} then {a} then {b}")),
    n!(Twice<B, A>, |a, b| format!("{a} then {b} then {a}")),
    n!(Twice<Only<A>, Twice<A, B>>, |a, b| format!("{b} then {a} then {b} then {a} then {b} then {a} then {b}")),
    n!(Braces<A>, |a, b| ["{X}", a, "{", a, "}"].concat()),
    n!(OnlyBraces<A>, |a, b| "{}"),
    n!(NoBraces<A>, |a, b| "no braces here"),
    n!(Consts<A, -3, '~'>, |a, b| format!("-3 of {a}, ~")),
    n!(Consts<Only<B>, 127, 'é'>, |a, b| format!("127 of {b}, é")),
    n!(OnlyConst<A, true>, |a, b| "true"),
    n!(SerdeBraces<A>, |a, b| "{X}"),
    n!(RenamedChoice<A>, |a, b| format!("C{a}")),
    n!(Inline<A>, |a, b| format!("with {a}")),
    n!(Unused<A>, |a, b| format!("u{a}")),
    n!(Both, |a, b| "read"),
    n!(RenameAll, |a, b| "RenameAll"),
    n!(Titled, |a, b| "Titled"),
    n!(r#fn, |a, b| "fn"),
    n!(Transparent<A>, |a, b| a),
    n!(TransparentNamed<A>, |a, b| format!("transparent {a}")),
    n!(With, |a, b| a),
    n!(SchemaWith, |a, b| "SchemaWith"),
    n!(From1, |a, b| "From1"),
    n!(Life, |a, b| "Life"),
    n!(LifeGeneric<A>, |a, b| format!("{a} of life")),
    n!(Underscore<A, B>, |a, b| format!("{b} & {a}")),
    n!(Near, |a, b| "Far"),
    n!(NearNamed, |a, b| "renamed far"),
    n!(Only<Vec<A>>, |a, b| format!("Array_of_{a}")),
    n!(Only<Box<Plain>>, |a, b| "Plain"),
];
#[rustfmt::skip]
const STD: &[Case] = &[
    n!(Box<A>, |a, b| a),
    n!(std::rc::Rc<std::sync::Arc<A>>, |a, b| a),
    n!(&'static mut &'static A, |a, b| a),
    n!(std::sync::Mutex<A>, |a, b| a),
    n!(std::cell::RefCell<A>, |a, b| a),
    n!(std::cell::Cell<A>, |a, b| a),
    n!(std::sync::RwLock<A>, |a, b| a),
    n!(std::num::Wrapping<A>, |a, b| a),
    n!(std::cmp::Reverse<A>, |a, b| a),
    n!(std::rc::Weak<A>, |a, b| format!("Nullable_{a}")),
    n!(Option<A>, |a, b| format!("Nullable_{a}")),
    n!(Option<Box<Only<B>>>, |a, b| format!("Nullable_{b}")),
    n!(Vec<A>, |a, b| format!("Array_of_{a}")),
    n!(VecDeque<A>, |a, b| format!("Array_of_{a}")),
    n!(LinkedList<A>, |a, b| format!("Array_of_{a}")),
    n!([A], |a, b| format!("Array_of_{a}")),
    n!(BinaryHeap<A>, |a, b| format!("Array_of_{a}")),
    n!(BTreeSet<A>, |a, b| format!("Set_of_{a}")),
    n!(HashSet<A>, |a, b| format!("Set_of_{a}")),
    n!([A; 0], |a, b| "EmptyArray"),
    n!([A; 1], |a, b| format!("Array_size_1_of_{a}")),
    n!([Vec<B>; 32], |a, b| format!("Array_size_32_of_Array_of_{b}")),
    n!((A,), |a, b| format!("Tuple_of_{a}")),
    n!((A, B), |a, b| format!("Tuple_of_{a}_and_{b}")),
    n!((B, A), |a, b| format!("Tuple_of_{b}_and_{a}")),
    n!((A, Option<B>, A), |a, b| format!("Tuple_of_{a}_and_Nullable_{b}_and_{a}")),
    n!(Result<A, B>, |a, b| format!("Result_of_{a}_or_{b}")),
    n!(Result<Vec<B>, A>, |a, b| format!("Result_of_Array_of_{b}_or_{a}")),
    n!(std::ops::Range<A>, |a, b| format!("Range_of_{a}")),
    n!(std::ops::RangeInclusive<A>, |a, b| format!("Range_of_{a}")),
    n!(std::ops::Bound<A>, |a, b| format!("Bound_of_{a}")),
    n!(BTreeMap<String, A>, |a, b| format!("Map_of_{a}")),
    n!(HashMap<&'static str, Vec<B>>, |a, b| format!("Map_of_Array_of_{b}")),
    n!(BTreeMap<A, B>, |a, b| format!("Map_from_{a}_to_{b}")),
    n!(BTreeMap<u8, B>, |a, b| format!("Map_from_uint8_to_{b}")),
    n!(Cow<'static, str>, |a, b| "string"),
    n!(Cow<'static, [bool]>, |a, b| "Array_of_boolean"),
];
fn one(cases: &[Case]) {
    let c = &cases[choose(cases.len() as u8)];
    let sym = |n: usize| match choose(3) {
        0 => ascii(n),
        1 => ascii_n(2, 0x7b, 0x7d),
        _ => utf8(1),
    };
    unsafe { NAMES = [sym(2), if cfg!(feature = "thorough") { sym(1) } else { ["", "b", "{X}", "A1"][choose(4)].into() }] };
    let names = unsafe { (*std::ptr::addr_of!(NAMES)).clone() };
    let want = (c.want)(&names[0], &names[1]);
    let got = (c.name)();
    explain!("type parameters called {names:?}: called {got:?}, expected {want:?}");
    observe(got.as_bytes());
    check(got == want, "a type has another name than it should have");
    let root = (c.root)(SchemaSettings::default().into_generator());
    let title = root.get("title").cloned();
    explain!("its root schema {}", root.as_value());
    check(title == Some(json!(want)) || title == Some(json!("a title")), "the title of a root schema is not the type's name");
    let mut g = SchemaSettings::default().into_generator();
    let s = (c.sub)(&mut g);
    if !(c.inline)() {
        check(s.get("$ref").is_some(), "a schema is not referred to");
        check(g.definitions().contains_key(&want), "a definition is not called like its type");
        reach(1);
    } else {
        reach(2);
    }
}
#[cfg(feature = "c31")]
pub fn name_derived() {
    one(DERIVED)
}
#[cfg(feature = "c31")]
pub fn name_std() {
    one(STD)
}
