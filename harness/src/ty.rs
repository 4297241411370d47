//! A type with its schemas and its serde behaviour.
#[macro_export]
macro_rules! ty {
    (deep $t:ty, [$($j:tt),* $(,)?]) => { $crate::ty!(@ $t, true, |_| $crate::der::EXACT, [$($j),*]) };
    (lenient $t:ty, [$($j:tt),* $(,)?]) => { $crate::ty!(@ $t, false, |_| $crate::der::SERDE_LENIENT, [$($j),*]) };
    ($t:ty, quirk $q:expr, [$($j:tt),* $(,)?]) => { $crate::ty!(@ $t, false, $q, [$($j),*]) };
    ($t:ty, [$($j:tt),* $(,)?]) => { $crate::ty!(@ $t, false, |_| $crate::der::EXACT, [$($j),*]) };
    (@ $t:ty, $d:expr, $q:expr, [$($j:tt),*]) => {
        $crate::der::Ty {
            name: stringify!($t),
            schema: |s| s.into_generator().into_root_schema_for::<$t>().to_value(),
            parts: |s| {
                let mut g = s.into_generator();
                let mut schema = g.subschema_for::<$t>();
                let defs = g.take_definitions(true);
                for t in g.transforms_mut() {
                    t.transform(&mut schema);
                }
                let mut v = schema.to_value();
                if let serde_json::Value::Object(m) = &mut v {
                    m.insert("components".into(), serde_json::json!({"schemas": defs}));
                }
                v
            },
            de: |v| serde_json::from_value::<$t>(v).ok().map(|t| serde_json::to_value(&t).map_err(|_| ())),
            tpl: || vec![$(serde_json::json!($j)),*],
            deep: $d,
            always: false,
            quirk: $q,
        }
    };
}

