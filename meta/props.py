#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the statements live here, once)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "bondrewd-derive/src/"
INTO, FROM, COM, PAR, SF, LIB = D + "structs/into_bytes.rs", D + "structs/from_bytes.rs", D + "structs/common.rs", D + "structs/parse.rs", D + "structs/struct_fns.rs", D + "lib.rs"
EN = [D + "enums/from_bytes.rs", D + "enums/into_bytes.rs", D + "enums/parse.rs", D + "enums/partial_eq.rs"]
HEX, ERR, CORE = "bondrewd/src/hex.rs", "bondrewd/src/error.rs", "bondrewd/src/lib.rs"
BITS, CF, SCAN = ("abstract interpretation of the macro's generated MIR (bit-provenance dataflow) against a layout model",
                  "compile-fail witnesses with compiling twins", "effect scan of the typed program (HIR/MIR) and no_std compile witnesses")
TN = ("For every witness layout: holds for every runtime input (bits are tracked as canonical Boolean functions of the input bits). "
      "Trusts the analyser's MIR semantics and the layout model; generator paths no witness layout reaches are not covered.")
P = []


def p(id, title, statement, over, text, why, mech, tech=BITS, note=TN, level="translation_validation"):
    files = []
    for _, w in mech:
        f = w.split(" ")[0]
        if f not in files:
            files.append(f)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], tech=tech, note=note, level=level))


I, PR, CFG = "inputs", "programs", "configurations"
LAY = "every bitfield definition the derive accepts, and "

p("C01", "Packing puts every field's bits exactly where the layout says",
  "Converting a value to bytes places each field's bits at the positions given by its declared widths, order, endianness and layout options: big endian fields most significant bit first, little endian fields byte by byte from the least significant, bits wider than the field dropped. No bit of any field lands anywhere else and all other bits are zero.",
  [PR, I], LAY + "every value of every field (including values wider than the field)",
  "the tests pack about twenty fixed layouts with a handful of values; a wrong mask or shift for one width/offset/endianness combination is invisible to them",
  [("into_bytes generation", f"{INTO} create_into_bytes_field_quotes_struct, get_field_quote"), ("bit arithmetic", f"{INTO} apply_be_math_to_field_access_quote, apply_le_math_to_field_access_quote, apply_ne_math_to_field_access_quote"),
   ("masks and starting index", f"{COM} BitMath, get_left_and_mask, get_right_and_mask, get_be_starting_index")])
p("C02", "Unpacking recovers every field exactly, with sign extension",
  "Converting bytes to a value, and reading a single field from bytes, yields exactly the number stored in the field's bits: unsigned fields are zero extended, signed fields narrower than their type are sign extended from their top stored bit. No other bit of the input influences the result.",
  [PR, I], LAY + "every byte array, not only ones the library produced",
  "tests mostly decode what they just encoded with positive values; sign handling at each width/offset/endianness and stray input bits are not sampled",
  [("from_bytes generation", f"{FROM} create_from_bytes_field_quotes, get_field_quote, build_number_quote"), ("sign extension", f"{FROM} add_sign_fix_quote, add_sign_fix_quote_single_bit"), ("bit arithmetic", f"{FROM} apply_be_math_to_field_access_quote, apply_le_math_to_field_access_quote")])
p("C03", "Packing and unpacking are inverse",
  "Unpacking what was packed gives back every field whose value fits its declared width, and repacking an unpacked byte array reproduces every bit that belongs to a written field. Values that do not fit come back reduced to the field's width, and never disturb a neighbour.",
  [PR, I], LAY + "every value and every byte array",
  "a pair of mirrored mistakes or a rarely used width passes the sampled round trips",
  [("pack", f"{INTO} create_into_bytes_field_quotes_struct"), ("unpack", f"{FROM} create_from_bytes_field_quotes"), ("enum forms", f"{INTO} create_into_bytes_field_quotes_enum")])
p("C04", "Writing one field into bytes replaces that field and nothing else",
  "Writing a single field into an existing byte array replaces all of the field's bits, whatever they held before, and leaves every other bit of the array as it was. Reading the field back gives the written value reduced to the field's width.",
  [PR, I], LAY + "every previous array content and every new value",
  "tests write into zeroed or freshly packed arrays, so bits that are not cleared or a clobbered neighbour do not show",
  [("write generation", f"{INTO} make_set_fn, create_fields_quotes"), ("clearing", f"{INTO} get_field_quote")])
p("C05", "Single-field access agrees with whole-value conversion",
  "Reading one field gives what unpacking the whole array would give for it, and writing every field one by one gives what packing the whole value would give. This holds for structures and for enums, field by field.",
  [PR, I], LAY + "every byte array and value",
  "the two code paths are generated separately; tests compare them on single values",
  [("read fns", f"{FROM} make_read_fns, make_peek_fn"), ("write fns", f"{INTO} make_set_fn"), ("whole value", f"{INTO} create_into_bytes_field_quotes_struct")])
p("C06", "Slice accessors agree with array accessors on long enough slices",
  "With a slice at least as long as the packed form, reading or writing a field through it gives the same value and the same bytes as on the array, never an error, and never touches bytes past the packed form. The same holds for enum ids and variant fields.",
  [PR, I], LAY + "every slice content and every sufficient length",
  "tests use exact-length slices of a few layouts",
  [("slice reads", f"{FROM} make_peek_slice_fn, make_peek_slice_unchecked_fn"), ("slice writes", f"{INTO} make_set_slice_fn, make_set_slice_unchecked_fn")])
p("C07", "Short slices give a length error with the right numbers and change nothing",
  "A slice too short for a field makes its slice accessor return a length error naming the given and the required length, without panicking and without modifying the slice; a slice that holds every byte of the field is accepted.",
  [PR, I], LAY + "every slice length including zero",
  "tests try one short length per layout at most",
  [("length guard of reads", f"{FROM} make_peek_slice_fn"), ("length guard of writes", f"{INTO} make_set_slice_fn"), ("error", f"{ERR} BitfieldLengthError"), ("check_slice", f"{FROM} get_check_slice_fn")])
p("C08", "Generated code never panics",
  "No generated conversion, accessor, checker, dynamic or hex function can panic, overflow arithmetic or index out of bounds on any input, including arbitrary bytes, ids matching no variant, invalid characters and slices of any length.",
  [PR, I], LAY + "every argument of every generated function, with overflow checks on",
  "tests exercise well formed inputs; a panic needs a particular width, offset or length",
  [("reads", f"{FROM} make_read_fns, build_number_quote"), ("writes", f"{INTO} get_field_quote"), ("checked views", f"{FROM} get_check_slice_fn"), ("hex", f"{HEX} from_hex, into_hex_upper")])
p("C09", "The advertised sizes are the layout's sizes",
  "The advertised bit size is the number of bits the fields occupy (or the filled size), the byte size is that rounded up, the packed array has exactly that many bytes, and for enums both cover the id plus the largest variant.",
  [PR], LAY.rstrip("and ").rstrip(", ") + ": all widths, positions, gaps, overlaps, fills, nested types and variants",
  "tests assert sizes for a few definitions",
  [("bit size", f"{COM} FieldInfo::bit_size, StructInfo::total_bits, EnumInfo::total_bits"), ("constants", f"{LIB} derive_bitfields"), ("gaps and fill", f"{COM} ObjectInfo::parse_fields")])
p("C10", "Enum ids select the right variant, and unknown ids the catch-all",
  "Unpacking an enum yields the variant whose id is stored in the bytes with that variant's fields, and any id that belongs to no variant yields the catch-all variant (the marked one, else the last). The mapping is total: no id is rejected.",
  [PR, I], "every enum definition the derive accepts and every stored id value",
  "tests decode one or two ids per enum and rarely an unknown one",
  [("match generation", f"{FROM} create_from_bytes_field_quotes_enum"), ("catch-all placement", f"{COM} ObjectInfo::parse")])
p("C11", "Enum ids are encoded at their place and can be queried",
  "Packing an enum stores its variant's id in the id bits, asking a value for its id gives the id that would be stored, and reading or writing the id alone touches exactly the id bits. This holds for every id width, byte order and bit order.",
  [PR, I], "every enum definition the derive accepts, every variant value and every byte array",
  "tests use ids of two or eight bits at the start of the array",
  [("id field", f"{COM} EnumInfo::generate_id_field, id_ident"), ("id code", f"{INTO} create_into_bytes_field_quotes_enum"), ("id()", f"{LIB} derive_bitfields")])
p("C12", "Explicit ids are honoured and the others get the lowest unused ones",
  "A variant with an explicit id (by attribute or discriminant) always has that id; variants without one get the lowest ids not used by any other, in declaration order, whichever variant is the catch-all. Ids of different variants are always distinct.",
  [PR], "every assignment of explicit and automatic ids over a list of variants, and every choice of catch-all",
  "tests contain two or three assignments",
  [("assignment", f"{COM} ObjectInfo::parse"), ("attribute", f"{COM} parse_struct_attrs_meta")])
p("C13", "A catch-all that captures the id keeps the id it saw",
  "A variant that captures its id receives the stored id on unpacking, and packing it stores the captured id, so bytes with unknown ids survive a round trip. Its other fields are placed as if the captured id were not a field.",
  [PR, I], "every enum with a capturing variant, every id width and byte order, and every stored id",
  "one test enum with an eight bit and one with a two bit id",
  [("capture", f"{COM} parse_fields"), ("reads", f"{FROM} create_from_bytes_field_quotes_enum"), ("writes", f"{INTO} create_into_bytes_field_quotes_enum")])
p("C14", "Reserved fields occupy bits but carry no data",
  "A reserved field keeps its bits in the layout, is packed as zeros whatever it holds, and is given its default on unpacking whatever the bytes hold, in every conversion. Its single-field accessors still work on its bits, and its neighbours are unaffected.",
  [PR, I], LAY + "every value and every byte array, for each kind of conversion",
  "tests check reserve on one or two byte aligned fields",
  [("skip on pack", f"{INTO} create_into_bytes_field_quotes_struct"), ("default on unpack", f"{FROM} create_fields_quotes"), ("reserve kinds", f"{COM} ReserveFieldOption")])
p("C15", "Read-only, redundant and overlapping fields share bits without harm",
  "A read-only or redundant field is read from its bits but never contributes to packing, and a redundant field adds nothing to the size. Fields sharing bits see the same bytes, and a declared overlap changes no other field's placement.",
  [PR, I], LAY + "every overlap position and width and every byte array",
  "one test struct with one overlapping field",
  [("skip on pack", f"{INTO} create_into_bytes_field_quotes_struct"), ("size", f"{COM} FieldInfo::bit_size"), ("overlap options", f"{COM} OverlapOptions")])
p("C16", "Unused and fill bits are zero when packing and ignored when unpacking",
  "Bits that belong to no field (trailing bits, gaps, fill bytes, and the space a small variant leaves) are zero in every packed array and have no influence on unpacking. Filling enlarges the size to the given bytes without moving any field.",
  [PR, I], LAY + "every value and every content of the unused bits",
  "tests look at packed constants and never unpack with dirty unused bits",
  [("fill", f"{COM} ObjectInfo::parse_fields"), ("variant fill", f"{COM} ObjectInfo::parse"), ("skipping fill fields", f"{FROM} create_fields_quotes")])
p("C17", "Reversing the byte order mirrors the whole array",
  "With byte reversal every conversion and accessor behaves as without it on the byte-mirrored array: each field, id, nested value and array element keeps its bits within its byte while the byte's position is mirrored. Slice accessors ask for the bytes that are really used.",
  [PR, I], "every definition with byte reversal, and every value and byte array",
  "tests reverse two byte aligned layouts",
  [("flip", f"{COM} BitMath"), ("reads", f"{FROM} get_field_quote"), ("writes", f"{INTO} get_field_quote"), ("id", f"{COM} EnumInfo::generate_id_field")])
p("C18", "Reading from the least significant bit mirrors the bit positions",
  "With bit zero at the least significant end, a field at logical bits s..e of n lies where bits n-e..n-s lie otherwise, with its own bit order unchanged; this holds for structures, enum ids, variants, gaps and fill.",
  [PR, I], "every definition with the least significant bit first, and every value and byte array",
  "tests use a few whole-byte layouts",
  [("position flip", f"{COM} ObjectInfo::parse_fields, ObjectInfo::parse")])
p("C19", "Element arrays pack each element with the element width",
  "An array field with per-element width stores its elements one after another, each at that width with the field's endianness, and reads them back in order with the same sign, truth or validity rules as a single field.",
  [PR, I], "every element type, element width, length, position and layout mode, and every content",
  "tests use u8 and small struct elements at aligned positions",
  [("elements", f"{COM} ElementSubFieldIter"), ("reads", f"{FROM} get_field_quote"), ("writes", f"{INTO} get_field_quote")])
p("C20", "Block arrays shorten only the first element",
  "An array field with a total block width stores its elements one after another at full width except the first, which holds what is left; a block as wide as the array is the plain array.",
  [PR, I], "every integer element type, block width, length, position and layout mode, and every content",
  "tests use two u8 block arrays",
  [("blocks", f"{COM} BlockSubFieldIter"), ("reads", f"{FROM} get_field_quote"), ("writes", f"{INTO} get_field_quote")])
p("C21", "Nested bitfields are embedded as their own packed bytes",
  "A field whose type is itself a bitfield (derived or written by hand, struct or enum) stores the first bits of the nested packed bytes at its position, in order, and gives the nested unpacking those bits followed by zeros. No bit outside the field is read or written.",
  [PR, I], LAY + "every nested type, width and offset, with nothing assumed about the nested conversion",
  "tests nest aligned structs",
  [("writes", f"{INTO} get_field_quote (struct arm)"), ("reads", f"{FROM} build_number_quote (struct arm)")])
p("C22", "Impossible or ambiguous definitions do not compile",
  "A definition whose fields overlap without saying so, that gives a field more bits than its type has, that holds no bits or a field without bits, whose positions, sizes or attribute values cannot be meant, or whose enum ids or values collide or do not fit, is rejected at compile time, and the same definition without the defect compiles. This does not depend on how the macro itself was compiled.",
  [PR, CFG], "every relative position of fields, every type and width, every way of colliding ids, with the macro built with and without overflow checks",
  "the test suite has no rejected definitions at all",
  [("overlap", f"{COM} FieldInfo::overlapping, FieldInfo::from_syn_field"), ("widths", f"{COM} FieldDataType::parse, FieldDataType::max_bit_length"), ("attributes", f"{PAR} FieldAttrBuilder::parse_meta"), ("ids", f"{COM} ObjectInfo::parse"), ("values", f"{D}enums/parse.rs EnumInfo::parse")],
  CF, "Every listed family of bad definitions is rejected by rustc with the current macro and each compiling twin is accepted; other defects are not covered.", "other")
p("C23", "Size enforcement accepts exactly the stated size",
  "A structure that states its number of bits, bytes, or that it uses whole bytes, compiles exactly when its fields add up to that, before filling; an enum that states a size is rejected when a variant with its id needs more.",
  [PR], "every layout and every stated number around its size",
  "enforcement appears in tests only with correct numbers",
  [("struct enforcement", f"{COM} ObjectInfo::parse_fields"), ("enum enforcement", f"{COM} ObjectInfo::parse, parse_enum_attrs_meta")],
  CF, "Every witness layout is compiled with each enforcement value around its size and must be accepted exactly at it (enums: never below it).", "other")
p("C24", "C-like enums map to and from their primitive as declared",
  "Each variant converts to its declared (or next unused) value and that value converts back to it; every other primitive value converts to the catch-all, which keeps the value if it has a place for it.",
  [PR, I], "every assignment of explicit and automatic values to variants, every kind of catch-all, and all 256 primitive values",
  "tests convert a handful of values of four enums",
  [("values", f"{EN[2]} EnumInfo::parse"), ("from_primitive", f"{EN[0]}"), ("into_primitive", f"{EN[1]}")])
p("C25", "Hex encoding is the packed bytes in hex and decodes back",
  "Hex encoding gives two digits per packed byte, high nibble first, in the requested case, and decoding the digits of either case gives the value that unpacking those bytes would give.",
  [PR, I, CFG], "every layout with the hex functions, every value, and upper, lower and mixed case digits",
  "tests encode two values",
  [("encode", f"{HEX} into_hex_upper, into_hex_lower"), ("decode", f"{HEX} from_hex")])
p("C26", "Bad hex is reported with the offending character and position",
  "Decoding text with a character that is no hex digit returns an error holding the first such character and its index, and dynamic decoding of text that is too short returns a length error with both lengths; nothing panics and nothing else is rejected.",
  [PR, I], "every digit array, every slice content and every length",
  "tests check no error at all for most paths",
  [("nibble decoding", f"{HEX} from_hex, from_hex_slice, from_hex_vec"), ("errors", f"{ERR} BitfieldHexError, BitfieldHexDynError")])
p("C27", "Dynamic unpacking consumes exactly the packed size or reports the length",
  "Unpacking from a growable buffer or a slice that is long enough gives what unpacking its first packed-size bytes gives; the buffer loses exactly those bytes and keeps the rest in order. A short one returns a length error with both lengths and is left as it was.",
  [PR, I], "every layout with the dynamic functions, every content and length",
  "tests use exact-length buffers",
  [("from_vec and from_slice", f"{FROM} create_from_bytes_field_quotes"), ("trait", f"{CORE} BitfieldsDyn")])
p("C28", "Checked slice views are as safe as their length check",
  "A checked view is handed out exactly when the slice has at least the packed size, otherwise the length error; through it every read gives what the array accessor gives, every write changes exactly what the array writer changes, and no access can fail. A view made without the check gives the same access to every field whose bytes are inside the slice.",
  [PR, I], "every layout with the dynamic functions and every slice",
  "tests check one view",
  [("check_slice", f"{FROM} get_check_slice_fn"), ("check_slice_mut", f"{INTO} create_fields_quotes"), ("view types", f"{LIB} derive_bitfields")])
p("C29", "Generated code is safe, no_std, and infallible by default",
  "Generated code and the support crate contain no unsafe code, need nothing beyond the core library (plus alloc for the dynamic functions), and with only the default generation no function can return an error or an absent value.",
  [PR, CFG], "every definition and every combination of the optional features",
  "the test crates use std and nothing looks at the generated code",
  [("feature gates", f"{LIB} derive_bitfields"), ("types used", f"{CORE} exports"), ("error impls", f"{ERR} std gate")],
  SCAN, "Every function of the witness crates and of the support crate is scanned on the typed program for each feature set; definitions outside the witnesses are not covered.", "other")
p("C30", "Comparing an enum with a number compares its id",
  "An enum equals a number of its id's type exactly when the number is the value's id, and a C-like enum with comparison enabled equals a primitive exactly when the primitive is the variant's value; the comparison is the same in both directions where both exist.",
  [PR, I], "every enum definition, every value and every number",
  "tests compare three values",
  [("id comparison", f"{LIB} derive_bitfields"), ("primitive comparison", f"{EN[3]}")])
p("C31", "Optional features only add functions",
  "Turning on the dynamic or hex functions changes neither the layout nor the result of any conversion or accessor that exists without them, in any combination.",
  [PR, CFG, I], "every combination of optional features, every layout and input",
  "the tests run under one feature combination",
  [("feature gates", f"{LIB} derive_bitfields"), ("gated generation", f"{FROM} create_fields_quotes"), ("gated generation of writes", f"{INTO} create_fields_quotes")])
p("C32", "The endianness of a field is its own, else the variant's, else the default",
  "A field uses its own endianness if it has one, otherwise its variant's, otherwise the definition's default, otherwise little endian; all accepted spellings of an endianness mean the same. Enum ids follow the definition's default.",
  [PR, I], "every combination of default, variant and field endianness in every spelling, and every value",
  "tests set the default once per struct and use two spellings",
  [("defaults", f"{COM} parse_struct_attrs_meta, Endianness"), ("field attribute", f"{PAR} FieldAttrBuilder::parse_meta")])
p("C33", "Equivalent spellings of a width or position give the same layout",
  "Giving a field's size in bits, bytes, as an explicit range or by its natural size, listing explicitly placed fields in any order, and writing attributes together, apart or in another order, leads to the same layout; gaps between explicit ranges stay unused.",
  [PR, I], "every spelling of the same layout, with every value and byte array",
  "tests use one spelling per layout",
  [("attributes", f"{PAR} FieldAttrBuilder::parse_meta"), ("placement", f"{COM} FieldInfo::from_syn_field, FieldDataType::parse"), ("gaps", f"{COM} ObjectInfo::parse_fields")])
p("C34", "Floats, characters and booleans survive bit for bit",
  "Floats keep every bit pattern including NaN payloads and signed zero, characters keep their scalar value and bytes that are no scalar value become the replacement character, and a boolean is true exactly when any of its bits is set.",
  [PR, I], LAY + "every bit pattern, in fields and array elements",
  "tests use ordinary numbers and ASCII letters",
  [("float and char writes", f"{INTO} get_field_quote"), ("float, char and bool reads", f"{FROM} build_number_quote, get_field_quote")])
p("C35", "C-like enum fields store their primitive and decode any bits",
  "A field of a C-like enum type stores its primitive in the field's width and decodes whatever bits it finds through the enum's own conversion, for derived and hand written enums alike.",
  [PR, I], LAY + "every width from one bit to the primitive's size and every byte array",
  "tests use three bit fields with valid values",
  [("writes", f"{INTO} get_field_quote (enum arm)"), ("reads", f"{FROM} build_number_quote (enum arm)")])
p("C36", "Variant field accessors address the variant's layout",
  "The accessor of one variant's field reads and writes exactly that field's bits of the packed enum, whichever variant the bytes hold, and leaves the id and all other bits alone.",
  [PR, I], "every enum definition, every variant field, and every byte array",
  "tests do not call them",
  [("reads", f"{FROM} make_read_fns"), ("writes", f"{INTO} create_fields_quotes")])
p("C38", "Names and surroundings of a definition do not matter",
  "Two definitions that differ only in the names of the type, its fields or its variants (raw identifiers included), in visibility, documentation or other tools' attributes, in how a field's type is spelt (by path, in parentheses, through a macro's type parameter), or in which other types, traits, modules, constants and macros are in scope where they stand, get code that compiles and behaves the same, each accessor under its field's own name. (The parameter names input_byte_buffer and output_byte_buffer, names that would make two accessors coincide, and items that replace primitive types or lower case constants are excluded.)",
  [PR, I], LAY + "every legal choice of names and of other items in scope",
  "the tests use plain names in nearly empty modules; a local variable or an unqualified path in the generated code that collides with a user's name compiles there and breaks, or silently changes the value, elsewhere",
  [("slice writers' locals and parameters", f"{INTO} make_set_slice_fn"), ("accessor names", f"{FROM} make_peek_fn, {COM} FieldIdent"), ("paths in generated code", f"{LIB} derive_bitfields, {EN[0]}, {EN[3]}")])
p("C37", "Error texts name the numbers and characters of the error",
  "The displayed text of every error names the lengths, or the character and position, that the error holds: each unchanged, numbers in decimal, and the expected and the provided length not exchanged. An error turned into the one of the dynamic hex functions displays the same numbers and characters.",
  [I], "every error value",
  "tests never format an error",
  [("Display", f"{ERR} Display for BitfieldLengthError, BitfieldHexError, BitfieldHexDynError"), ("conversions", f"{ERR} From for BitfieldHexDynError")],
  tech="abstract interpretation of the Display implementations' MIR into literal pieces and displayed values", level="other",
  note="For every error value, as long as the wording does not depend on the value (then ten values per error type are decided instead). core::fmt, for which the library ships no MIR, is modelled.")
p("C39", "Expansion depends on nothing but the definition",
  "Deriving the same definition gives the same code every time: whatever was derived before it, wherever it stands, and in whichever process, directory, environment or moment it is compiled.",
  [PR, "histories", CFG], "every definition and every history of the compiler process that expands it",
  "tests expand each definition once, in one process",
  [("entry points and what they reach", f"{LIB} derive_bitfields, derive_bondrewd_enum and every function of the crate"), ("variants by value", f"{EN[2]} EnumInfo::parse, literal_variants")],
  tech="effect analysis of every body of the macro crate: state, environment, clocks, addresses, source positions, hash table order", level="other",
  note="Decides the macro's own crate; syn, quote, proc_macro2 and convert_case are taken as deterministic. A hash table may be used, and walked where the order cannot show; what is flagged is a walk whose order can reach the result.")
p("C40", "The generated interface is complete, public and typed as documented",
  "For every accepted definition the conversions, the read and write functions of every field, and, with the optional features, their slice forms, the checked views and the hexadecimal functions exist under their documented names with their documented parameter and result types, and can be used wherever the type can; the errors they return can be taken apart, displayed and, with std, used as standard errors.",
  [PR, CFG], "every definition the derive accepts under every combination of optional features",
  "the tests call a few generated functions from the module that defines the type, so neither hidden items nor changed signatures of the others show",
  [("readers", f"{FROM} make_peek_fn, make_peek_slice_fn, make_peek_slice_unchecked_fn"), ("writers", f"{INTO} make_set_fn, make_set_slice_fn, make_set_slice_unchecked_fn"), ("views and impls", f"{LIB} derive_bitfields"), ("errors", f"{ERR} all")],
  tech="type-level witnesses: function pointer coercions outside the defining module, and a visibility query over the typed program", level="other",
  note="For every witness layout and four feature sets. Any other type, a missing item or a hidden one fails to compile or is found by the query; items beyond the documented ones are not looked at.")
p("C41", "A rejected definition is explained where it is wrong",
  "When a definition is rejected for a defect the derive can see, it is by the derive's own error message: never by a panic or endless expansion of the macro, and never by errors in code it generated. The error points into the definition - at the offending field or variant where there is one - and names the numbers it is about: the bits given to a field that is too wide, the fields that overlap, the bits a structure has and was said to have, the value that does not fit.",
  [PR, CFG], "every definition the derive rejects, with the macro built with and without overflow checks",
  "the test suite has no rejected definitions at all",
  [("fields", f"{COM} FieldInfo::from_syn_field, FieldDataType::parse, ObjectInfo::parse_fields"), ("ids and sizes", f"{COM} ObjectInfo::parse"), ("attributes", f"{PAR} FieldAttrBuilder::parse_meta"), ("values", f"{D}enums/parse.rs EnumInfo::parse")],
  tech="compile-fail witnesses judged by the compiler's diagnostics: origin, place and numbers of each error", level="other",
  note="For the listed families of bad definitions; wordings are free. Numbers too large for 32 bits are out of scope (the macro's arithmetic on them is unchecked).")
NA = []


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for x in P + NA:
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]),
                                    why_tests_cant=x["why"], anchors=dict(files=x["files"], mechanism=x["mech"]))) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py setup",
             checks=[dict(property=x["id"], quick_cmd=f"python3 check.py {x['id']}", thorough_cmd=f"python3 check.py {x['id']} thorough",
                          technique=x["tech"], level=x["level"], level_note=x["note"]) for x in P],
             not_applicable=[dict(property=x["id"], reason=x["reason"]) for x in NA],
             notes="bitflow/ is the analyser (a rustc_private driver), lib/model.py the layout model; see DESIGN.md. No hooks in /repo.")
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    open(f"{HERE}/MANIFEST.json", "a").write("\n")


main()
