"""Which harnesses decide which property, with their bounds."""
BUDGET_S = {"quick": 780, "thorough": 5400}

ASSUMPTIONS = [
    "schemars is compiled by the installed stable rustc with panic=abort, opt-level 1, overflow checks on, default features (so serde_json maps are BTreeMaps); the LLVM IR of that build is what is executed symbolically",
    "memory allocation never fails; HashMap seeds are fixed; unwinding is not modelled (a panic ends the path and is itself a violation)",
    "harness code, the hand-written oracle (harness/src/val.rs and friends) and the executor engine/symx are trusted; a sample of passing paths and every counterexample is re-run natively and must agree",
]

PROPS = {
    "C01": dict(
        features=["c01"],
        explanation="every path of generating a root schema with two referenced definitions whose names are symbolic, then resolving the produced reference with an independent RFC 3986 + RFC 6901 resolver and with Schema::pointer/pointer_mut",
        harnesses=[
            dict(fn="refs_utf8", bound="definition name = any UTF-8 string of <= 3 bytes (thorough: 4), default definitions path"),
            dict(fn="refs_paths", bound="any ASCII name of <= 2 bytes (thorough: 3) x 5 definitions_path spellings"),
            dict(fn="refs_pair", bound="two definitions, names = any 2 (thorough: 3) characters of ~ / 0 1 % 2 F 5 each"),
            dict(fn="refs_context", bound="any ASCII string of <= 1 byte between 4 fixed prefixes and 4 fixed suffixes containing escapes"),
        ],
    ),
    "C02": dict(
        features=["c02"],
        explanation="every path of Schema::pointer and pointer_mut on a fixed document with adversarial keys, compared (by address of the found value) with an independent lookup written from RFC 6901 and the documented percent-decoding rule",
        harnesses=[
            dict(fn="ptr_free", bound="pointer = any UTF-8 string of <= 3 bytes (thorough: 4)", reach=[1, 2]),
            dict(fn="ptr_fragment", bound="7 prefixes followed by any ASCII string of <= 2 bytes (thorough: 3)", reach=[1, 2]),
            dict(fn="ptr_fragment_utf8", bound="5 prefixes x 2 suffixes around any UTF-8 string of <= 3 bytes (thorough: 4)", reach=[1, 2]),
            dict(fn="ptr_percent", bound="one % escape with any two ASCII characters after it, 6 prefixes x 6 suffixes", reach=[1, 2]),
        ],
    ),
    "C03": dict(
        features=["c03"],
        explanation="every path of requesting definitions for several types whose schema names and ids are symbolic strings drawn so that they collide with each other and with generated suffixes; each returned reference must lead to the definition of the type it was requested for",
        harnesses=[
            dict(fn="ident_names", bound="3 types with distinct ids, names from {A, A2, A3, A22}, all sequences of 3 requests (thorough: 4)"),
            dict(fn="ident_suffix", bound="3 types with distinct ids, names = any strings of 1-2 digits (thorough: 1-3), so that names and generated suffixes collide in every way"),
            dict(fn="ident_any", bound="2 types with any 1-character ASCII names and ids plus a third, 2 requests (thorough: 3)"),
            dict(fn="ident_clone", bound="3 types, names from {A, A2}, all sequences of 4 (thorough: 5) requests or generator clones", reach=[1, 2]),
            dict(fn="ident_take", bound="3 types, names from {A, A2}, all sequences of 4 (thorough: 5) requests or take_definitions calls", reach=[1, 2]),
        ],
    ),
    "C04": dict(
        features=["c04"],
        explanation="every path of generating a root schema for a type graph whose edges are decided symbolically while it is generated; the result is compared with the graph by resolving every reference independently",
        harnesses=[
            dict(fn="closed_graph", bound="all graphs of 3 types with <= 2 edges each; graph unrolled to depth 5 when compared", reach=[1, 3]),
            dict(fn="closed_inline", bound="3 types, <= 1 edge each (thorough: 2), any subset inline"),
            dict(fn="closed_paths", bound="2 types, <= 2 edges, 7 definitions_path spellings, both root functions", reach=[1, 3]),
            dict(fn="closed_nested", bound="3 types, <= 1 edge each (thorough: 2), symbolic names; the root type generates a root schema of another type before or after its first reference", reach=[1, 3]),
            dict(fn="closed_inline_setting", bound="3 types, <= 1 edge each (thorough: 2), inline_subschemas on, any subset inline"),
        ],
    ),
    "C05": dict(
        features=["c05"],
        explanation="every sequence of generator operations within the bound, over every small type graph, followed by generating a root schema which must be closed and describe its type",
        harnesses=[
            dict(fn="hist_repeat", bound="2 types, <= 2 edges, 4 dialects, inlining on/off, symbolic names: repeat, clone, consume"),
            dict(fn="hist_any", bound="3 types, <= 1 edge each, symbolic names, 2 operations (thorough: 3) out of 8 before the final root schema", reach=[1, 2, 3]),
            dict(fn="hist_transforms", bound="3 types, <= 1 edge each, two of which may be forwarded to another type, <= 2 subschemas before the root schema, 2 transforms, definitions taken with or without them", reach=[1, 2]),
        ],
    ),
    "C06": dict(
        features=["c06"],
        explanation="every type graph within the bound, generated with inlining (globally and per type), compared with the graph",
        harnesses=[
            dict(fn="inline_equiv", bound="all graphs of 3 types with <= 2 edges each, inline_subschemas on", reach=[1, 2, 3]),
            dict(fn="inline_mixed", bound="3 types, <= 1 edge each (thorough: 2), any inline subset, inline_subschemas on or off"),
        ],
    ),
    "C07": dict(
        features=["c07"],
        explanation="every path of transform_subschemas / RecursiveTransform over schemas whose keywords (with any one byte changed) and value shapes are symbolic; the set of visited values is compared with the list of schema-valued positions in the JSON Schema specifications",
        harnesses=[
            dict(fn="visit_word", bound="31 keywords, each with any one byte replaced or appended by any printable character, x 4 value shapes (thorough: 7)", reach=[1, 2]),
            dict(fn="visit_key", bound="any UTF-8 key of <= 4 bytes (thorough: 5)"),
            dict(fn="visit_recursive", bound="39 x 39 nested positions with a second keyword at the root"),
            dict(fn="visit_order", bound="23 x 23 nested subschema positions"),
        ],
    ),
    "C08": dict(
        features=["c08"],
        explanation="every path of ReplaceBoolSchemas over schemas with booleans in every position, compared with a model written from its documentation, and with a JSON Schema validator on symbolic instances",
        harnesses=[
            dict(fn="bools_anywhere", bound="3 inner schemas in 39 positions of 39 positions (thorough: one level more), both settings", reach=[1, 2]),
            dict(fn="bools_meaning", bound="4 schema shapes with symbolic booleans, small symbolic instances", reach=[1, 2]),
            dict(fn="bools_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C09": dict(
        features=["c09"],
        explanation="every path of RemoveRefSiblings over schemas with $ref and any sibling in every position, compared with a documentation model; meaning under 2020-12 before equals meaning under draft 7 after for symbolic instances",
        harnesses=[
            dict(fn="refsib_anywhere", bound="7 sibling families (one with any 1-2 character keyword), 39 positions (thorough: 39 x 39)", reach=[1, 2]),
            dict(fn="refsib_meaning", bound="any subset of 5 sibling keywords, symbolic limits and integers of 9 bits", reach=[1, 2]),
            dict(fn="refsib_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C10": dict(
        features=["c10"],
        explanation="every path of ReplaceConstValue and SetSingleExample over schemas with symbolic payloads in every position, compared with a documentation model and, for const, with a validator on symbolic instances",
        harnesses=[
            dict(fn="const_anywhere", bound="8 payload families, 3 schema shapes, 39 positions (thorough: 39 x 39)", reach=[1, 2]),
            dict(fn="const_meaning", bound="8 payload families against 8 instance families", reach=[1, 2]),
            dict(fn="example_anywhere", bound="0-3 examples of 8 payload families, 3 schema shapes, 39 positions (thorough: 39 x 39)", reach=[1, 2]),
            dict(fn="const_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C11": dict(
        features=["c11"],
        explanation="every path of ReplacePrefixItems over schemas with any combination of prefixItems/items in every position, compared with a documentation model; meaning under 2020-12 before equals meaning under draft 7 after",
        harnesses=[
            dict(fn="prefix_anywhere", bound="<= 2 prefix items of 4 kinds, items of 4 kinds, 39 positions (thorough: 39 x 39)", reach=[1, 2]),
            dict(fn="prefix_meaning", bound="<= 2 prefix items, items of 4 kinds with symbolic limits, arrays of <= 2 (thorough: 3) elements", reach=[1, 2]),
            dict(fn="prefix_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C12": dict(
        features=["c12"],
        explanation="every path of AddNullable over schemas with any type list in every position and all four settings, compared with a documentation model and a validator that gives `nullable` its OpenAPI meaning",
        harnesses=[
            dict(fn="nullable_anywhere", bound="type = string or list of <= 3 of 5 names, 39 positions (thorough: 39 x 39), 4 settings", reach=[1, 2]),
            dict(fn="nullable_meaning", bound="type = string or list of <= 2 of 3 names in 4 contexts, 4 settings, instances of every JSON type", reach=[1, 2]),
            dict(fn="nullable_near", bound="keywords and type names with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C13": dict(
        features=["c13"],
        explanation="every path of ReplaceUnevaluatedProperties over schemas with in-place subschemas, compared with a documentation model; every value accepted before (validator with annotation tracking) is accepted after, and exactly those when only allOf is involved",
        assumptions=["schemas whose unevaluatedProperties has to see through $ref, patternProperties or nested additionalProperties are outside the checked space (documented limitation of the transform)"],
        harnesses=[
            dict(fn="uneval_anywhere", bound="5 x 5 branch shapes under 6 applicators, 3 unevaluatedProperties values, 39 positions (thorough: 39 x 39)", reach=[1, 2]),
            dict(fn="uneval_names", bound="any one-character property names in parent and branch, 8 keywords", reach=[1, 2]),
            dict(fn="uneval_meaning", bound="the same schemas, objects over 4 properties with 1-3 values each", reach=[1, 2, 3]),
            dict(fn="uneval_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C14": dict(
        features=["c14"],
        explanation="every path of RestrictFormats over symbolic format names, allow-lists and (nested) $schema values, compared with a model written from its documentation and the format lists of the specifications",
        harnesses=[
            dict(fn="formats_words", bound="21 format names, each with any one byte changed, 5 meta-schemas, inference on/off", reach=[1, 2]),
            dict(fn="formats_allowed", bound="any format name of 1-2 printable characters, allow-list of <= 2 entries with any such names", reach=[1, 2]),
            dict(fn="formats_nested", bound="39 positions, 5 x 4 nested $schema values, 4 formats", reach=[1, 2]),
            dict(fn="formats_near", bound="keywords with any one byte changed", reach=[1, 2]),
        ],
    ),
    "C16": dict(
        features=["c16"],
        explanation="every path of Schema conversion, (de)serialization, comparison and the keyword accessors over symbolic documents; the serialized text is parsed by the harness's own parser and its keyword order compared with the documented one in every schema position",
        assumptions=["memchr (third-party SIMD search, inline assembly) is replaced by a scalar version in the harness build"],
        harnesses=[
            dict(fn="ser_keywords", bound="2 (thorough: 3) keywords and a nested document under any of 20 keywords, 3 nested documents", reach=[1]),
            dict(fn="ser_keys", bound="any key of <= 2 ASCII characters (optionally followed by a non-ASCII one) or any string content of 1 character", reach=[1]),
            dict(fn="ser_near", bound="9 keywords with any one byte changed or added", reach=[1]),
            dict(fn="accept_value", bound="8 shapes of JSON value with symbolic parts", reach=[1, 2]),
            dict(fn="accept_text", bound="every ASCII text of <= 3 (thorough: 4) characters", reach=[1, 2]),
            dict(fn="accessors", bound="4 document shapes with symbolic values, any one-character keyword", reach=[1]),
        ],
    ),
    "C17": dict(
        features=["c17"],
        explanation="every path of subschema_for::<Option<T>> for a type T with a symbolic schema, compared by a validator over every kind of instance",
        assumptions=["schemas with const and an enum that does not contain it, and anyOf lists with an entry that has type null but rejects null, are outside the checked space"],
        harnesses=[
            dict(fn="option_one", bound="5 type shapes x 5 const/enum shapes with symbolic payloads x 8 in-place applicators (also alone: anyOf lists of up to two of 14 entries) x with or without other keywords, inlined or by reference, 5 instance families", reach=[1, 2, 3]),
            dict(fn="option_two", bound="the same under Option<Option<T>>", reach=[1, 2, 3]),
            dict(fn="option_box", bound="the same under Option<Box<Option<T>>>", reach=[1, 2, 3]),
        ],
    ),
    "C15": dict(
        features=["c15"],
        explanation="for every type of the battery (73 derived types), dialect and contract: the schema is generated by the real code, its vocabulary is checked in every schema position, and a validator of that dialect is compared with a 2020-12 validator on template documents with symbolic edits",
        assumptions=["OpenAPI 3.0 item lists (what ReplacePrefixItems documents to emit) are given their draft 7 meaning", "where 2020-12 uses unevaluatedProperties only the accepting direction is compared (documented limitation)"],
        harnesses=[
            dict(fn="dialects_structs", bound="22 types x 4 forms (draft 7, 2019-09, OpenAPI 3.0, inlined) x 2 contracts x templates with one edit anywhere (thorough: two in small types); an edit = any other JSON value, removed / added / renamed entry or element, or any one byte of a string or name changed", reach=[1, 2]),
            dict(fn="dialects_external", bound="the same for 11 types with externally tagged enums", reach=[1, 2]),
            dict(fn="dialects_tagged", bound="the same for 12 internally and adjacently tagged enums", reach=[1, 2]),
            dict(fn="dialects_combined", bound="the same for 8 nested combinations of the above", reach=[1, 2]),
            dict(fn="dialects_untagged", bound="the same for 5 untagged enums", reach=[1, 2]),
            dict(fn="dialects_flattened", bound="the same for 12 types with flattened fields and 3 types with containers", reach=[1, 2]),
            dict(fn="openapi_root", bound="root schemas of 22 types under the OpenAPI settings", reach=[1]),
        ],
    ),
    "C18": dict(
        features=["c18"],
        explanation="for structs and enum variants deriving JsonSchema with flattened fields whose schemas are symbolic (14 ways of describing an object), the generated schema is compared by a validator with the conjunction of the field schemas, where restrictions on unknown keys are left to the outer type",
        assumptions=["two flattened fields that both take all remaining keys (two maps, or a map and a schema that allows everything) are outside the checked space", "where a flattened field is a closed schema behind a $ref only open schemas are checked"],
        harnesses=[
            dict(fn="flat_one", bound="one flattened field: 14 schema shapes (properties, patternProperties, oneOf, anyOf, allOf, not, if/then/else, dependentRequired, unevaluatedProperties, maps, trivial) x open or closed x inline or by reference x 3 positions; objects with any subset of the keys, boolean or numeric, and any one-letter key", reach=[1, 2]),
            dict(fn="flat_two", bound="two flattened fields, 14 x 14 shapes (thorough: also nested and second one closed), objects with any subset of the keys", reach=[1, 2]),
            dict(fn="flat_three", bound="three flattened fields of 4 shapes each (thorough 7), each inline or by reference; one of them varies over the same objects", reach=[1, 2]),
            dict(fn="flat_deny", bound="one or two flattened fields in a struct with deny_unknown_fields, 11 shapes each, the same objects", reach=[1, 2]),
            dict(fn="flat_variant", bound="a flattened field in a struct variant and a newtype variant of an internally tagged enum, 13 shapes, the same objects with right, wrong or missing tag", reach=[1, 2]),
            dict(fn="flat_rest", bound="a flattened map, after it a schema that allows everything, and a third field (11 shapes) in any of 3 positions; objects with any subset of its keys and any one-letter key", reach=[1, 2]),
        ],
    ),
    "C19": dict(
        features=["c19"],
        explanation="for every type of the battery: the schema for deserializing is generated by the real derive output, a template document gets symbolic edits, and the validator's verdict is compared with serde's derived Deserialize, both executed symbolically",
        assumptions=["serde deviations that no schema describes are excluded per document: sequences given for structs, numbers for variant names, {\"Variant\": null} for unit variants, errors turned into None by flattened Options, content of unit variants, #[serde(other)]"],
        harnesses=[
            dict(fn="structs", bound="22 types, template documents with one edit anywhere (small types and thorough: two); an edit = any other JSON value, removed / added / renamed entry or element, or any one byte of a string or name changed", reach=[1, 2]),
            dict(fn="enums_external", bound="11 types with externally tagged enums, same edits", reach=[1, 2]),
            dict(fn="enums_internal", bound="7 internally tagged enums, same edits", reach=[1, 2]),
            dict(fn="enums_adjacent", bound="5 adjacently tagged enums, same edits", reach=[1, 2]),
            dict(fn="enums_untagged", bound="5 untagged enums, same edits", reach=[1, 2]),
            dict(fn="flattened", bound="12 types with flattened fields, same edits", reach=[1, 2]),
            dict(fn="combined", bound="8 types that nest these (internally tagged newtype variants around enums and structs that deny unknown fields, flatten with deny_unknown_fields, tagged structs), same edits", reach=[1, 2]),
            dict(fn="containers", bound="3 types with maps, tuples, pointers, same edits", reach=[1, 2]),
            dict(fn="combo_structs", bound="37 structs: 8 combinations of default, deny_unknown_fields, rename_all and tag x nothing, a struct, a struct that denies unknown fields, a map or an optional struct flattened into it; same edits", reach=[1, 2]),
            dict(fn="combo_enums", bound="externally and internally tagged enums, plain, with deny_unknown_fields, and with rename_all and rename_all_fields too (thorough: also without denying), each with 9 or 10 kinds of variant; same edits", reach=[1, 2]),
            dict(fn="combo_enums2", bound="the same for adjacently tagged and untagged enums", reach=[1, 2]),
            dict(fn="defaults", bound="5 types with defaults on fields and containers, every defaulted field, same edits", reach=[1, 2]),
        ],
    ),
    "C20": dict(
        features=["c20"],
        explanation="for every type of the battery: values are obtained by deserializing symbolically edited documents (or built directly with symbolic fields), serialized by serde's derived Serialize, and validated against the schema for serializing, all executed symbolically",
        harnesses=[
            dict(fn="ser_structs", bound="22 types, values from template documents with one edit anywhere (small types and thorough: two); fields always written must be required", reach=[1, 3]),
            dict(fn="ser_external", bound="11 types with externally tagged enums", reach=[1, 2, 3]),
            dict(fn="ser_internal", bound="7 internally tagged enums", reach=[1, 2, 3]),
            dict(fn="ser_adjacent", bound="5 adjacently tagged enums", reach=[1, 2, 3]),
            dict(fn="ser_untagged", bound="5 untagged enums", reach=[1, 2, 3]),
            dict(fn="ser_flattened", bound="12 types with flattened fields", reach=[1, 3]),
            dict(fn="ser_combined", bound="8 types that nest these", reach=[1, 3]),
            dict(fn="ser_containers", bound="3 types with maps, tuples, pointers", reach=[1, 3]),
            dict(fn="ser_only", bound="14 kinds of values that deserialization cannot produce, symbolic fields", reach=[1]),
            dict(fn="ser_combos", bound="the 37 structs with combined attributes", reach=[1, 3]),
            dict(fn="ser_combos2", bound="the 6 externally and internally tagged enums with combined attributes", reach=[1, 3]),
            dict(fn="ser_combos3", bound="the same for adjacently tagged and untagged enums", reach=[1, 3]),
        ],
    ),
    "C21": dict(
        features=["c21"],
        explanation="for every implementation for standard library types: the schema is compared with serde's implementation, both executed symbolically: template documents with one symbolic edit, every 64-bit integer for every integer type, every length around the right one for arrays and tuples, symbolic strings as map keys and characters",
        assumptions=["not described by schemas and excluded per document: sequences given for structs, numbers for variant names, unknown entries in Range, Duration, Result and Bound, strings that IP addresses and C strings reject, floats with integral value given for integers, NaN"],
        harnesses=[
            dict(fn="std_de", bound="56 types, template documents with one edit anywhere (any other JSON value, removed / added / renamed entry or element, any one byte of a string or name changed)", reach=[1, 2]),
            dict(fn="std_ser", bound="the same 56 types: what serde writes for the deserialized value, against the schema for serializing", reach=[1, 3]),
            dict(fn="std_ints", bound="39 number types x all u64 and all i64", reach=[1, 2]),
            dict(fn="std_arrays", bound="[bool; 0] to [bool; 32], lengths 0, N-1, N, N+1, 33, any one element of another type", reach=[1, 2]),
            dict(fn="std_tuples", bound="tuples of 1 to 16 elements, lengths 0, N-1, N, N+1, 17, any one element of another type", reach=[1, 2]),
            dict(fn="std_chars", bound="any UTF-8 string of <= 4 bytes (thorough: 6) as char and String", reach=[1, 2]),
            dict(fn="std_maps", bound="maps with 21 key types; key = any ASCII string of <= 2 bytes (thorough: 3) or one of 13 names with any byte inserted anywhere; with or without another key, right or wrong value type", reach=[1, 2]),
            dict(fn="std_any_keys", bound="maps whose key type has any schema made of 1-3 (thorough 4) options out of 10, directly or through a reference; any key up to 2 ASCII bytes and 10 names", reach=[1, 2]),
        ],
    ),
    "C22": dict(
        features=["c22"],
        explanation="the same comparison for the implementations for third-party crates (arrayvec, bigdecimal, bytes, chrono, either, indexmap, jiff, rust_decimal, semver, smallvec, smol_str, url, uuid), whose own serde code and parsers are executed symbolically",
        assumptions=["strings that do not parse as a date, URL, UUID, or that chrono's weekday parser additionally accepts, are outside the comparison; decimal strings that deserialization takes and the pattern does not (e.g. .5 or +1) are not required to be accepted", "jiff is not covered (its types are plain strings with a format)"],
        harnesses=[
            dict(fn="tp_de", bound="27 types, template documents with one edit anywhere", reach=[1, 2]),
            dict(fn="tp_ser", bound="the same 27 types: what serde writes, against the schema for serializing", reach=[1, 3]),
            dict(fn="semver_text", bound="5 versions with one (thorough: two) byte replaced, inserted or removed anywhere, exact", reach=[1, 2]),
            dict(fn="decimal_text", bound="any ASCII string of <= 3 bytes (thorough: 4), and 2 templates with 1-2 symbolic bytes: what the pattern accepts can be deserialized", reach=[1, 2]),
            dict(fn="decimal_number", bound="all u64 and i64", reach=[1]),
            dict(fn="decimal_written", bound="mantissa in -128..127 (also x 10^6), scale 0..11 (thorough: from -5): what is written matches both schemas", reach=[1]),
        ],
    ),
    "C23": dict(
        features=["c23"],
        explanation="for every ordered pair of types out of batteries of generic types over two inner types with symbolic ids and names: both schemas are generated from one generator and, with all references expanded, must equal what each type gets from a generator of its own",
        assumptions=["types whose schema depends on a type parameter only through attribute expressions (e.g. extend with an associated constant) or macros are outside the checked space"],
        harnesses=[
            dict(fn="id_std", bound="46 standard library types (all generic containers over two inner types, primitives), every ordered pair; inner ids any 1-2 letters of a, b; equal or different names; inline or not", reach=[1, 2]),
            dict(fn="id_more", bound="26 types (third-party containers, NonZero, times, addresses), every ordered pair, the same inner types", reach=[1, 2]),
            dict(fn="id_derived", bound="67 derived generic types (type and const parameters, renames, inline, transparent, with, schema_with, associated types, lifetimes, skipped fields, modules), every ordered pair", reach=[1, 2]),
            dict(fn="id_renamed", bound="9 types of one module, renamed to equal names, every ordered pair", reach=[1, 2]),
            dict(fn="id_local", bound="3 types with the same name in different functions and another type", reach=[1]),
        ],
    ),
    "C24": dict(
        features=["c24"],
        explanation="root_schema_for_value and into_root_schema_for_value are run on values that make an arbitrary sequence of serializer calls and on values of derived types; the schema must accept serde_json's serialization of the same value, include exactly it as the example, be well formed and closed in its dialect, and list fields, keys and positions under their serialized names",
        assumptions=["sequence and map lengths, nesting and string lengths are bounded as stated; numbers take part only through their Rust type and finiteness"],
        harnesses=[
            dict(fn="ex_calls", bound="every serializer method at the root with up to 2 children from 6 leaf values; strings up to 2 bytes of UTF-8; 4 dialects; generator with and without earlier definitions", reach=[1, 2, 3]),
            dict(fn="ex_leaves", bound="every leaf value (all primitives, NaN and infinities, RawValue, failing values, u128 out of range) inside 6 containers; 4 dialects", reach=[1, 2, 3]),
            dict(fn="ex_nested", bound="containers nested 2 deep (thorough 3), one child each"),
            dict(fn="ex_mixed", bound="sequences and maps of 2 or 3 elements with different shapes"),
            dict(fn="ex_keys", bound="maps of one or two entries; keys: any UTF-8 up to 2 bytes, any ASCII character, 64 and 128 bit integers, floats, booleans, unit variants, newtypes; 4 dialects", reach=[1, 3]),
            dict(fn="ex_derived", bound="12 shapes of derived Serialize values: every tagging, flattening, transparent, skipped fields, tuples, arrays, maps; symbolic contents; 4 dialects"),
        ],
    ),
    "C25": dict(
        features=["c25"],
        explanation="each attribute is put on fields of derived types in every position, with symbolic arguments; on symbolic documents the schema with the attribute must accept exactly what the schema without it accepts and the attribute's rule allows",
        assumptions=["an attribute that loosens a bound the field's own schema already has (e.g. range(min = -1) on u8) is documented to set that bound and is outside the checked space", "fields whose schema is a $ref are not constrained, which the documentation leaves open"],
        harnesses=[
            dict(fn="valid_everywhere", bound="7 attributes in 16 positions (struct, tuple, newtype, every enum tagging, flattened, generic, documented fields); length and range arguments 0..255; strings up to 3 bytes of UTF-8, arrays up to 3", reach=[1, 2]),
            dict(fn="valid_each", bound="40 combinations of attributes (schemars, validate and garde spellings, overriding, nesting, attributes that must be ignored) in 2 positions", reach=[1, 2]),
            dict(fn="valid_contains", bound="any substring of up to 3 bytes (thorough 4) of UTF-8; strings up to 3 bytes, and the substring within other text", reach=[1, 2]),
            dict(fn="valid_types", bound="length, range and contains on a field whose schema lists any 0-2 (thorough 3) types", reach=[1, 2]),
            dict(fn="valid_required", bound="7 field types, present and absent", reach=[1, 2]),
            dict(fn="valid_formats", bound="15 spellings and positions of the format attributes"),
        ],
    ),
    "C26": dict(
        features=["c26"],
        explanation="schemas are generated for batteries of types and for generic types over a type with an arbitrary well-formed schema, in every dialect; each result is checked keyword by keyword against a meta-schema check written from the specifications of its dialect",
        assumptions=["user-supplied schemas are themselves well-formed 2020-12 schemas", "keywords a dialect does not define are ignored, as in the meta-schemas (their use is C15)"],
        harnesses=[
            dict(fn="wf_odd", bound="52 degenerate types (no variants, skipped variants and fields, repeated names, empty tuples, nested options, map keys of every kind); 4 dialects, both contracts, inlined or not"),
            dict(fn="wf_types", bound="the derived types of C15/C19/C20; 4 dialects, both contracts, inlined or not"),
            dict(fn="wf_std", bound="the standard library and third-party types of C21 and C22; 4 dialects, both contracts, inlined or not"),
            dict(fn="wf_any", bound="any schema of up to 2 of 34 keywords with symbolic values, nested once; 4 dialects"),
            dict(fn="wf_wrapped", bound="any boolean or one-keyword schema inside 16 generic derived and standard types; 4 dialects"),
            dict(fn="wf_flatten", bound="one or two flattened types with any boolean or one-keyword schemas; 4 dialects"),
        ],
    ),
    "C27": dict(
        features=["c27"],
        explanation="types are derived with annotations in every position and without them; the annotations, some with symbolic values, must be at the place of the item they describe and nowhere else, and on symbolic documents both schemas must agree; documentation text is split by the real code and by a reference",
        assumptions=["annotations of a flattened field itself are not in the schema, which the documentation leaves open", "keywords that validation attributes and defaults of the same field set are outside the checked space"],
        harnesses=[
            dict(fn="on_fields", bound="6 sets of annotations on 20 kinds of field, whose own schema is any of 6; titles up to 2 bytes of UTF-8, descriptions up to 1, any extension scalar", reach=[1, 2, 3]),
            dict(fn="on_variants", bound="6 sets of annotations on 20 kinds of variant, over 6 schemas", reach=[1, 2, 3]),
            dict(fn="on_containers", bound="6 sets of annotations on 19 kinds of container, at the root and in $defs or inlined, over 6 schemas", reach=[1, 2, 3]),
            dict(fn="doc_text", bound="any text of up to 5 (thorough 6) bytes of UTF-8 or 6 (7) of ASCII, and 3 bytes after headings", reach=[1, 2]),
        ],
    ),
    "C28": dict(
        features=["c28"],
        explanation="for pairs of types, one with schemars and serde attributes that meet, one with the serde attributes that must result: the schema of the first is generated by the real derive output and its verdict on symbolically edited documents is compared with serde's derived Deserialize and Serialize of the second, all executed symbolically",
        assumptions=["aliases, serde(other) and the content of unit variants are not described by schemas"],
        harnesses=[
            dict(fn="over_containers", bound="23 pairs: rename_all, rename_all_fields, deny_unknown_fields, transparent, tag, content, untagged set, replaced or taken away, variants in definitions; template documents with one edit anywhere (thorough: two), an edit as in C19", reach=[1, 2]),
            dict(fn="over_variants", bound="6 pairs: rename, rename_all, skip*, untagged, with, schema_with on variants; same edits", reach=[1, 2]),
            dict(fn="over_fields", bound="11 pairs: rename, default, skip*, skip_serializing_if, flatten, with, schema_with on fields of structs, tuples and variants; same edits", reach=[1, 2]),
            dict(fn="over_places", bound="7 pairs: from, try_from, into, with on containers, remote types; same edits", reach=[1, 2]),
            dict(fn="over_ser", bound="all 47 pairs: what serde writes for the deserialized value, against the schema for serializing", reach=[1, 3]),
        ],
    ),
    "C29": dict(
        features=["c29"],
        explanation="schemas of enums with JsonSchema_repr, generated by the real derive output, are compared with serde_repr's derived Deserialize and Serialize on symbolic 64-bit integers and on documents around them",
        assumptions=["serde(other) is not described by schemas", "floats with integral value are not given"],
        harnesses=[
            dict(fn="repr_ints", bound="13 enums over 10 representation types x all u64 and all i64", reach=[1, 2]),
            dict(fn="repr_within", bound="8 types containing them x 171 integers around discriminants and limits", reach=[1, 2]),
            dict(fn="repr_other", bound="booleans, objects, arrays, fractions, digit and name strings", reach=[2]),
            dict(fn="repr_values", bound="every value of every type; 4 dialects, both contracts, inlined or not", reach=[1]),
        ],
    ),
    "C30": dict(
        features=["c30"],
        explanation="root schemas of a type with symbolic name and title and an arbitrary own schema are generated after different histories and compared part by part with what they must consist of; transforms that count their calls and note what they see show when they run",
        assumptions=["a type's own schema has nothing but an object where the definitions belong", "what a value's schema says about the value is C24"],
        harnesses=[
            dict(fn="root_parts", bound="9 own schemas (booleans, own title of any kind, own $schema, references to itself and others), name and $schema any UTF-8 of <= 1 byte, 4 definitions paths, 8 histories, both contracts, inlined or not"),
            dict(fn="root_transforms", bound="the same with two transforms"),
            dict(fn="root_values", bound="10 kinds of values with symbolic contents, with and without transforms and earlier definitions; both functions, asked twice"),
        ],
    ),
    "C31": dict(
        features=["c31"],
        explanation="types are derived with names, renames and generic parameters of every kind; the names of their type arguments are symbolic; what a type is called, the title of its root schema and the key of its definition, all from the real derive output, impls and generator, are compared with what the declarations say",
        assumptions=["names of types for third-party crates are not checked"],
        harnesses=[
            dict(fn="name_derived", bound="38 types: generic parameters (types, constants, lifetimes), renames by serde, schemars or both, with and without placeholders and braces, raw and remote names, transparent and with; argument names any ASCII of <= 2 bytes, any UTF-8 of 1 byte, or made of braces", reach=[1, 2]),
            dict(fn="name_std", bound="37 standard library types over the same arguments", reach=[1, 2]),
        ],
    ),
    "C32": dict(
        features=["c32"],
        explanation="types are derived with a field that only one direction has, in every position and spelling, and with untagged variants under the setting that titles them; the schema of the field or variant is any of six; the schemas for both contracts are compared with those of the same type without the attribute or setting",
        assumptions=["fields of newtype variants and flattened fields are not marked"],
        harnesses=[
            dict(fn="marks", bound="13 positions of a field, 6 schemas, skip_serializing and skip_deserializing spelled for serde or schemars, with other attributes, or taken away; both contracts", reach=[1, 2]),
            dict(fn="titles", bound="20 positions of a variant x 4 sets of attributes, and two types with renamed, titled, documented, skipped, replaced and flattened untagged variants; 6 schemas; both contracts", reach=[1, 2]),
        ],
    ),
    "C33": dict(
        features=["c33"],
        explanation="types are derived with defaults on fields and containers, written in every way, in every kind of struct and variant; the default values, the decision to skip them and the schema of the field are symbolic; the default in the real schema is compared with what serde writes for what it reads when the field is missing",
        assumptions=["tuple fields and flattened fields have no default in the schema, as today", "a default whose type is a parameter is only in the schema if the parameter is declared to be Serialize"],
        harnesses=[
            dict(fn="default_values", bound="42 fields (default, path, container, generic, skipped, converted, renamed, in variants, flattened, overridden for schemars), 6 kinds of values (thorough: 8) with symbolic content, 5 field schemas, both contracts", reach=[1, 2]),
            dict(fn="default_unset", bound="no default, a default that is taken away, and one default; 4 field schemas", reach=[1]),
        ],
    ),
}
