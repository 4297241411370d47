"""The properties (source of properties.jsonl)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, **kw))


G = "schemars/src/generate.rs"
P("C01", "Every generated $ref leads to its definition, whatever the type is called",
  "When a type's schema is referenced rather than inlined, the emitted `$ref` is a well-formed URI fragment whose percent-decoded JSON pointer leads, inside the generated root schema, to exactly that type's definition, for every schema name and every definitions path. The library's own pointer lookups find the same definition from that `$ref`.",
  ["inputs", "configurations"], "all schema names (any Unicode string) and all definitions_path spellings",
  "Tests use a handful of identifier-like names (plus one with a few special characters); the escaping must be right for every byte, including control characters, `%`, `~`, `/` and multi-byte characters.",
  [G, "schemars/src/encoding.rs", "schemars/src/schema.rs"],
  [("subschema_for / encode_ref_name", "schemars/src/encoding.rs"), ("add_definitions / json_pointer_mut", G), ("Schema::pointer", "schemars/src/schema.rs")],
  ["the $ref string and the root schema returned by root_schema_for / into_root_schema_for"])
P("C02", "Pointer lookups on a schema follow RFC 6901 and never panic",
  "Looking up a JSON pointer in a schema (optionally as a `#` fragment with percent-escapes) returns exactly the value that RFC 6901 with percent-decoding designates, or nothing, for every pointer string; the mutable lookup agrees with the shared one, and neither panics. Malformed percent-escapes are taken literally.",
  ["inputs"], "all pointer strings",
  "The unit tests list about a dozen pointers; malformed escapes, multi-byte characters after `%`, and mixes of `~` and `%` escapes are an unbounded input space.",
  ["schemars/src/schema.rs", "schemars/src/encoding.rs"],
  [("Schema::pointer, Schema::pointer_mut", "schemars/src/schema.rs"), ("percent_decode", "schemars/src/encoding.rs")],
  ["return value of Schema::pointer / pointer_mut"])
P("C03", "Different types never share a definition; one type always gets the same one",
  "Two types with different schema ids never end up with the same definition name or `$ref`, even when their schema names collide with each other or with generated suffixed names, and a type keeps its name and definition for the lifetime of a generator, including in clones of it and after its definitions were taken. Every reference describes the type it was requested for.",
  ["inputs", "histories"], "all assignments of names and ids to several types and all orders of requesting them, cloning the generator, and taking its definitions",
  "One test has two types with one colliding name; interactions between colliding names and numeric suffixes (Foo, Foo2, Foo) and between naming and clone/take are not sampled.",
  [G], [("find_ref, schema_id_to_name, used_schema_names", G), ("Clone for SchemaGenerator", G), ("take_definitions", G)],
  ["$refs returned by subschema_for, keys and values of definitions()"])
P("C04", "Generated root schemas are complete, closed and finite for every type graph",
  "For every (possibly recursive) graph of types, generating a root schema terminates and yields a document in which every reference resolves inside the document and which describes exactly that type graph, wherever the settings say definitions go and whichever types ask to be inlined. That includes a root schema generated while another one is being generated.",
  ["inputs", "configurations"], "all type graphs within the bound, all definitions paths and inlining choices",
  "Tests contain a few recursive types with default settings; self-references, mutual recursion through inlined types, and unusual definitions paths are combinations they do not reach.",
  [G], [("insert_new_subschema_for, pending_schema_ids, root_schema_id_stack", G), ("add_definitions", G)],
  ["the root schema document"])
P("C05", "What a generator produced earlier never corrupts what it produces next",
  "After any sequence of generating subschemas, root schemas or value schemas, cloning, and taking definitions, the next root schema from the same generator is still closed and describes its type; repeating a request gives the same result, and the consuming and borrowing forms agree; the transforms of the settings are applied, in order and once, to each root schema and to each definition that is taken with them.",
  ["histories"], "all operation sequences within the bound on one generator, over all small type graphs",
  "Tests almost always use a fresh generator per schema; state carried over between calls (definitions, pending set, root stack, names) is only exercised by arbitrary call histories.",
  [G], [("root_schema_for, into_root_schema_for, root_schema_for_value, take_definitions", G)],
  ["root schemas produced after a history; definitions()"])
P("C06", "Inlining subschemas changes where schemas are written, not what they say",
  "With inlining enabled the generated schema describes exactly the same type graph as without it, contains references only where a type is recursive, and leaves no reference dangling; types that ask to be inlined never become definitions.",
  ["inputs", "configurations"], "all type graphs within the bound, inlined globally or per type",
  "The inlining tests cover two types; which nodes may be inlined in a cyclic graph depends on the whole graph.",
  [G], [("find_ref with inline_subschemas and pending_schema_ids", G)],
  ["the root schema document"])

T = "schemars/src/transform.rs"
POSQ = "tests run a few hand-written schemas"
P("C07", "Transforms reach every direct subschema, once, and nothing else",
  "Applying a transform to a schema's subschemas visits exactly the values that the JSON Schema specifications (draft 7 to 2020-12) define as direct subschemas, each once, and never a value that merely looks like a schema (in `const`, `enum`, `default`, `examples`, an extension keyword, or a malformed keyword). A recursive transform visits every nested subschema exactly once, parents before their children.",
  ["inputs"], "all schema documents: every keyword, value shape and nesting",
  "Existing tests only exercise traversal indirectly for the keywords their sample types produce; the keyword x shape x nesting space is not sampled.",
  [T], [("transform_subschemas", T), ("RecursiveTransform", T)], ["the schema after transform_subschemas / RecursiveTransform"])
P("C08", "Boolean schemas become equivalent objects wherever a schema may stand",
  "After replacing boolean schemas, every schema position of the document holds an object that accepts the same values (except a boolean `additionalProperties`, if the caller asked to keep it), and everything that is not a schema position is unchanged.",
  ["inputs", "configurations"], "all schema documents and both settings",
  "Only the OpenAPI settings exercise it, on the schemas of sample types; positions nested below `additionalProperties` or inside non-schema values are not sampled.",
  [T], [("ReplaceBoolSchemas", T)], ["the transformed schema"])
P("C09", "Moving $ref away from its siblings never changes what a schema means",
  "After removing the siblings of `$ref`, no schema in the document has `$ref` next to another keyword, every other keyword and existing `allOf` entry is preserved, and a draft 7 validator (which ignores siblings of `$ref`) accepts exactly the values that the original schema accepts under 2020-12.",
  ["inputs"], "all schemas with $ref, all siblings, all positions, all instances",
  "A handful of generated schemas is compared with snapshots; combinations with an existing allOf or in unusual positions are not.",
  [T], [("RemoveRefSiblings", T)], ["the transformed schema"])
P("C10", "const becomes a one-value enum and examples becomes example, losslessly",
  "Replacing `const` yields a schema that accepts exactly the same values and contains no `const` keyword in any schema position; setting a single example keeps exactly the first example. Data that happens to contain those names (property names, default, const or enum values, extensions) is unchanged.",
  ["inputs"], "all schemas, const payloads and example lists",
  "Snapshots cover string constants of sample enums only, not null, nested or look-alike payloads.",
  [T], [("ReplaceConstValue, SetSingleExample", T)], ["the transformed schema"])
P("C11", "Tuple schemas keep their meaning when prefixItems is replaced",
  "After replacing `prefixItems`, a draft 7 validator accepts exactly the arrays the original schema accepts under 2020-12, for every combination of prefix items and trailing `items`, wherever the schema stands; other keywords and data are unchanged.",
  ["inputs"], "all prefixItems/items combinations, positions and array instances",
  "Snapshots contain closed tuples of scalars; open tuples, empty prefixes and nested tuples are not sampled.",
  [T], [("ReplacePrefixItems", T)], ["the transformed schema"])
P("C12", "nullable is added exactly to schemas that allow null, keeping their meaning",
  "Adding `nullable` marks exactly the schemas whose `type` includes null, removes or keeps the null type and adds `const: null` exactly as configured, and the resulting schema (giving `nullable` its OpenAPI meaning) accepts the same values as before.",
  ["inputs", "configurations"], "all type lists, all settings, positions and instances",
  "Snapshots cover Option of a few types with the default setting.",
  [T], [("AddNullable", T)], ["the transformed schema"])
P("C13", "Replacing unevaluatedProperties never rejects what was allowed",
  "After replacing `unevaluatedProperties` by `additionalProperties`, every value the original schema accepts is still accepted, no `unevaluatedProperties` is left, and, when only `allOf` composition is involved, nothing else is accepted. Property names are gathered from in-place subschemas only.",
  ["inputs"], "all compositions of in-place subschemas within the bound, all object instances",
  "Snapshots cover two flattened structs; which names must be gathered depends on every applicator and nesting.",
  [T], [("ReplaceUnevaluatedProperties, GatherPropertyNames", T)], ["the transformed schema"])
P("C14", "Format restriction removes exactly the formats the dialect does not define",
  "Restricting formats removes a schema's `format` exactly when the dialect in force at that schema does not define it and it is not in the caller's allow-list; when the dialect is missing or unknown nothing is removed, and with inference off only allow-listed formats stay. Nested `$schema` values apply to their own subtree only.",
  ["inputs", "configurations"], "all format names, allow-lists, dialects and nestings",
  "One unit test has twelve subschemas under one root dialect.",
  [T], [("RestrictFormats", T)], ["the transformed schema"])
SC = "schemars/src/schema.rs"
P("C16", "A Schema is exactly a JSON object or boolean, and serialization loses nothing",
  "Conversions into Schema (owned, borrowed, deserialized) succeed exactly for JSON objects and booleans and keep the value; the accessors (get, insert, remove, ensure_object, comparisons) behave like the documented map view; serialized text is valid JSON with every keyword exactly once and unchanged, in the documented order at every schema position, and reads back as an equal schema.",
  ["inputs"], "all JSON documents, keys and positions",
  "A single unit test serializes one schema; keyword order and preservation depend on which keywords occur where.",
  [SC], [("Schema, OrderedKeywordWrapper", SC)], ["the serialized text", "the values returned by accessors"])
P("C17", "Option<T> accepts exactly null and what T accepts",
  "For every type T, whatever its schema looks like, the schema of Option<T> (also nested, boxed, inlined or referenced) accepts null and every value the schema of T accepts, and nothing else.",
  ["inputs"], "all inner schemas and all instances",
  "Snapshots cover Option of primitives, structs and enums with the keywords derive emits; hand-written inner schemas with const, not, if or anyOf are not sampled.",
  [SC, "schemars/src/_private/mod.rs", "schemars/src/json_schema_impls/core.rs"], [("allow_null", "schemars/src/_private/mod.rs"), ("Option impl", "schemars/src/json_schema_impls/core.rs")], ["the generated schema"])
DR = "schemars_derive/src/schema_exprs.rs"
PV = "schemars/src/_private/mod.rs"
P("C15", "Every dialect and the inlining setting describe the same values",
  "For every type, the schemas generated under the draft 7, 2019-09, 2020-12 and OpenAPI 3.0 settings and with inlined subschemas each use only keywords their dialect defines, and a validator of that dialect accepts the same documents as the 2020-12 schema (except that replacing unevaluatedProperties may accept more).",
  ["inputs", "configurations"], "all types, dialects, contracts and documents",
  "Tests compare one sample struct per dialect with a snapshot; whether meaning survives depends on each construct and its position.",
  [G, "schemars/src/transform.rs", PV, DR], [("SchemaSettings, apply_transforms", G), ("the transforms", "schemars/src/transform.rs")], ["the generated schemas"])
P("C18", "Flattening keeps the meaning of every flattened schema",
  "The schema of a struct (or enum variant) with flattened fields accepts exactly the objects that all of the fields' schemas accept together, whatever keywords those schemas use and however many fields are flattened, where restrictions on unknown properties apply to the outer type as a whole: closed schemas do not reject the outer struct's keys, deny_unknown_fields still rejects keys no field knows, and a flattened map constrains only the remaining keys.",
  ["inputs"], "all combinations of flattened schema shapes and all objects",
  "Snapshots flatten a few derived structs and maps; hand-written schemas with not, if/then/else, dependentRequired or patternProperties and combinations of two flattened enums are rarely sampled.",
  [PV, DR], [("flatten, flatten_property, normalise_additional_unevaluated_properties", PV), ("json_schema_for_flatten", PV)], ["the generated schema"])
P("C19", "The schema for deserializing describes what Deserialize accepts",
  "For a type deriving Deserialize and JsonSchema with any supported combination of serde attributes (renames, defaults, skips, flatten, all enum representations, conversions, generics), the schema generated for deserializing accepts a document exactly when serde can deserialize it, and a `default` in the schema is the value serde uses for the missing field. Leniencies of serde that no schema describes (sequences for structs, numeric variant names, `other`) are excepted.",
  ["inputs"], "all derived types and all JSON documents",
  "Tests use fixed lists of values per type; attributes interact, and the interesting documents are those that differ in one name, one missing entry or one type.",
  [DR, "schemars_derive/src/ast/mod.rs", "schemars_derive/src/attr/mod.rs", PV], [("expr_for_container and friends", DR), ("flatten, insert_object_property", PV)], ["the generated schema", "serde's result"])
P("C20", "The schema for serializing describes what Serialize writes",
  "For a type deriving Serialize and JsonSchema, everything serde writes for any value of the type is accepted by the schema generated for serializing, and entries of a struct that are always written are required by it.",
  ["inputs"], "all derived types and all their values",
  "Tests use a few values per type; skipped and renamed fields and variants differ per direction and are rarely combined in tests.",
  [DR, "schemars_derive/src/ast/mod.rs", PV], [("expr_for_container and friends", DR), ("with_contract_check", "schemars_derive/src/ast/mod.rs")], ["the generated schema", "serde's output"])
IM = "schemars/src/json_schema_impls/"
P("C21", "Schemas of standard library types describe their JSON form",
  "For every standard library type schemars supports (integers incl. NonZero and atomics, floats, char, strings, arrays, tuples, sequences, sets, maps with any key type, Option, Result, Bound, ranges, Duration, SystemTime, OS and C strings, addresses, smart pointers, cells and wrappers), the schema accepts every document serde deserializes or serializes for it (repeated elements of sets excepted, which it rejects) and rejects documents of another shape: wrong types, numbers outside the type's range, wrong lengths, missing entries, and map keys that cannot be the key type (integers, enums and patterned strings as keys).",
  ["inputs"], "all supported types, all integers, all lengths, all keys within the bound",
  "Tests compare the schemas with snapshots and a few values; bounds, lengths and key patterns matter at every value, and each impl is generated by a macro per size or type.",
  [IM + f for f in ("primitives.rs", "nonzero.rs", "atomic.rs", "array.rs", "tuple.rs", "sequences.rs", "maps.rs", "core.rs", "std_time.rs", "ffi.rs", "wrapper.rs", "serdejson.rs")],
  [("JsonSchema impls", IM + "mod.rs")], ["the generated schema", "serde's result"])
P("C22", "Schemas of third-party types describe their JSON form",
  "For every supported type of arrayvec, bigdecimal, bytes, chrono, either, indexmap, jiff, rust_decimal, semver, smallvec, smol_str, url and uuid, the schema accepts what the crate's serde implementation writes, structural types are described exactly, semver's pattern accepts exactly the versions that parse, and decimals accepted by the pattern can be deserialized.",
  ["inputs"], "all supported types and documents within the bound",
  "Snapshot tests with a few values per type; patterns and contracts (serialize vs deserialize) are only sampled.",
  [IM + f for f in ("arrayvec07.rs", "decimal.rs", "bytes1.rs", "chrono04.rs", "either1.rs", "indexmap2.rs", "semver1.rs", "url2.rs", "uuid1.rs", "mod.rs")],
  [("JsonSchema impls", IM + "mod.rs")], ["the generated schema", "serde's result"])
P("C23", "Generic types are told apart by everything they are made of",
  "Two types with different schemas, built from the same generic type or container with different type or const arguments, or derived in different modules, never share a definition within one generator, even when all the names involved are equal; each gets the schema it would get from a generator of its own.",
  ["inputs", "histories"], "all pairs of types in the batteries, all ids and names of their arguments",
  "Tests have one or two generic types; ids are concatenated from the ids of the arguments by every impl separately, and an omitted argument only shows when two instances meet in one generator.",
  ["schemars_derive/src/lib.rs", "schemars_derive/src/bound.rs", IM + "mod.rs", IM + "core.rs", IM + "maps.rs", IM + "tuple.rs"],
  [("schema_id of derived types", "schemars_derive/src/lib.rs"), ("relevant type params", "schemars_derive/src/bound.rs"), ("schema_id of containers", IM + "mod.rs")], ["the definitions and references of one generator"])

P("C24", "A schema inferred from an example value describes that example",
  "For every value that serializes to JSON, the schema inferred from it (schema_for_value!, root_schema_for_value, into_root_schema_for_value) accepts the value's JSON, carries exactly that JSON as its example, lists fields, map keys and tuple positions under the names they have in the JSON, is well formed in the chosen dialect and is the same from both functions; a value whose serialization fails yields an error and never a panic.",
  ["inputs", "configurations"], "all sequences of serializer calls and key contents within the bounds, all dialects",
  "Tests infer schemas from two hand-written values; keys with quotes or backslashes, non-finite numbers, empty tuples, mixed sequences and raw JSON are all separate paths of the inferring serializer.",
  ["schemars/src/ser.rs", G], [("Serializer", "schemars/src/ser.rs"), ("root_schema_for_value", G)], ["the root schema returned for a value"])

P("C25", "Validation attributes mean what they say",
  "A length, range, regex, pattern, contains, required, inner or format attribute (schemars, validate or garde spelling) on a field makes the schema accept exactly the documents it accepted before that also follow the attribute's rule, wherever the field is; it has no effect on schemas of other types; contains finds exactly the given text, whatever characters it has, with a pattern every JSON Schema implementation can read.",
  ["inputs"], "all arguments and documents within the bounds, every position of the field",
  "Tests sample two structs with fixed arguments; escaping of unusual text, the positions a field can be in and combinations with nullable or listed types are not covered.",
  ["schemars_derive/src/attr/validation.rs", "schemars_derive/src/attr/parse_meta.rs", PV, "schemars/src/_private/regex_syntax.rs"],
  [("add_mutators", "schemars_derive/src/attr/validation.rs"), ("insert_validation_property", PV), ("escape", "schemars/src/_private/regex_syntax.rs")], ["the schema of the annotated field"])

P("C26", "Generated schemas are valid schemas of their dialect",
  "Whatever the types and settings, a generated schema is valid under the meta-schema of its dialect: every keyword has a value of the right shape (required and type lists without duplicates, no empty oneOf/anyOf/allOf/prefixItems, no null type or type list in OpenAPI 3.0, schemas where schemas belong), given that schemas supplied by the user are.",
  ["inputs", "configurations"], "all types in the batteries and all user-supplied schemas within the bounds, all dialects and contracts",
  "Most tests compare snapshots and validators are lenient; empty lists and duplicates appear only for degenerate combinations (skipped variants, overlapping flattened fields), which tests do not have.",
  [DR, PV, T, "schemars/src/json_schema_impls/mod.rs"], [("variant_subschemas", DR), ("flatten, insert_object_property", PV), ("transforms", T)], ["the root schema"])

P("C27", "Annotations describe the item they are written on, and do not constrain it",
  "Wherever a title, description, documentation comment, example, deprecation or extension is written - container, variant or field of any representation - the generated schema of exactly that item carries it: an explicit title or description replaces the one from the documentation (a leading markdown heading is the title, the rest the description), empty ones are left out, extensions replace what is there, transforms see the result in the order written; no other part of the schema changes and the same documents stay valid.",
  ["inputs", "configurations"], "all annotation values within the bounds, every position, every kind of annotated schema",
  "Tests snapshot a few documented types; a position whose annotations are lost, land on a shared definition or replace the constraint they should sit beside is not among them.",
  [DR, "schemars_derive/src/attr/mod.rs", "schemars_derive/src/attr/doc.rs", PV, "schemars/src/_private/rustdoc.rs"], [("add_mutators", "schemars_derive/src/attr/mod.rs"), ("get_title_and_description", "schemars/src/_private/rustdoc.rs")], ["the schema of the annotated item"])

P("C28", "Attributes written for schemars take the place of those written for serde",
  "A schemars attribute has the effect serde's attribute of the same name has on the JSON form, wherever it may be written (container, variant, field), and takes the place of serde's if both are there, in any order; !name takes serde's away; with and schema_with, from, into, try_from and remote describe the type they name: the schema is that of the type whose serde attributes are the resulting ones, for deserializing and for serializing.",
  ["inputs", "configurations"], "all documents within the bounds, every attribute in every position, set, replaced and taken away",
  "Tests have one type with overridden attributes and one with a removed attribute; precedence is decided per keyword and position, and a wrong choice shows only in documents that tell the two apart.",
  ["schemars_derive/src/attr/schemars_to_serde.rs", "schemars_derive/src/attr/mod.rs", "schemars_derive/src/attr/custom_meta.rs", DR, "schemars_derive/src/ast/mod.rs"],
  [("process_attrs", "schemars_derive/src/attr/schemars_to_serde.rs"), ("process_meta", "schemars_derive/src/attr/mod.rs"), ("expr_for_field", DR)], ["the schema of the annotated type"])

P("C29", "The schema of a number enum accepts exactly its discriminants",
  "For an enum with JsonSchema_repr, whatever its representation type and however its discriminants are written (implicit, negative, jumping, computed, at the limits of 64 bits), the schema accepts exactly the numbers that serde_repr reads and writes, alone, inside other types, in every dialect and contract.",
  ["inputs", "configurations"], "every 64-bit integer for every type of the battery; documents of other kinds",
  "Tests have one u8 enum; conversions of negative and large discriminants and implicit ones after jumps are not covered.",
  [DR, "schemars_derive/src/lib.rs"], [("expr_for_repr", DR)], ["the schema of the enum"])

P("C30", "A root schema is the type's schema with its title, dialect and definitions, transformed once",
  "Whatever the type's own schema is and whatever the generator did before, a root schema consists of the type's own schema, a title (the type's name unless it has a title of its own), the $schema of the settings, and the definitions of the types it refers to at the configured place; transforms run exactly once each, in the order added, on the finished root schema and not on what the generator keeps; the ways of asking for it (root_schema_for, into_root_schema_for, through a clone, for an example value) agree.",
  ["inputs", "configurations", "histories"], "all names, titles, dialects and own schemas within the bounds, every sequence of calls in the list",
  "Tests snapshot fresh generators with default settings; reuse, own titles, boolean schemas and other definition paths are not combined.",
  [G], [("root_schema_for, into_root_schema_for, root_schema_for_value, into_root_schema_for_value, add_definitions, apply_transforms", G)], ["the root schema"])

P("C31", "A schema is named after its type",
  "A type is called what its declaration, a serde rename or a schemars rename says, the last of these with every {parameter} replaced by the argument's name or value and doubled braces read as one; a wrapper is called what it wraps, a container is called after its kind and all its arguments in order. That name is the title of the type's root schema and the key of its definition.",
  ["inputs"], "all names of type arguments within the bounds, every kind of rename and generic parameter",
  "Tests rename a few types; that a name survives on every path (transparent, with, remote, generic, container impls) and for every argument name is not covered, and names are what users refer to definitions by.",
  ["schemars_derive/src/name.rs", "schemars_derive/src/lib.rs", "schemars_derive/src/ast/mod.rs", "schemars/src/json_schema_impls/mod.rs", G],
  [("get_rename_format_type_params", "schemars_derive/src/name.rs"), ("derive_json_schema, get_transparent_type", "schemars_derive/src/lib.rs"), ("schema_name", "schemars/src/json_schema_impls/mod.rs")], ["schema_name(), the title of root schemas, the keys of definitions"])

P("C32", "Fields of one direction are marked, and untagged variants titled when asked for",
  "In the schema for deserializing, a field that is not serialized is marked writeOnly, and in the schema for serializing, a field that is not deserialized is marked readOnly, wherever the field is and however the attribute is written; nothing else is marked, and the mark changes nothing else. With untagged_enum_variant_titles, every variant without a tag, and nothing else, gets its name (in that direction) as the title, unless it has a title of its own.",
  ["inputs", "configurations"], "every position of a field or variant, all kinds of field schemas, both contracts",
  "Tests have one struct with skipped fields and one titled untagged enum; positions such as tuple fields, fields with a schema of their own or variants untagged by themselves are separate paths.",
  ["schemars_derive/src/ast/mod.rs", DR], [("Field::add_mutators", "schemars_derive/src/ast/mod.rs"), ("expr_for_untagged_enum_variant", DR)], ["the schema of the type"])
P("C33", "The default in a schema is what is written for the value of a missing field",
  "If a field may be missing because of default, on the field or its container, then its schema has as default what is written for the value that is read when it is missing: as the field's serialize_with or with writes it. There is no default if that value is not written (skip_serializing, or skip_serializing_if holds for it) or cannot be, and none for a field without one; what is written for schemars takes the place of what is written for serde.",
  ["inputs", "configurations"], "all default values within the bound, every position of a field, all kinds of field schemas, both contracts",
  "Tests look at a handful of constant defaults; the interplay of default on field and container, skip_serializing_if, serialize_with, generics and variants with the value itself is not sampled.",
  [DR, "schemars/src/_private/mod.rs"], [("field_default_expr, expr_for_struct", DR), ("MaybeSerializeWrapper", "schemars/src/_private/mod.rs")], ["default in the schema of a field"])
