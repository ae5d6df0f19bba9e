#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
D = "bondrewd-derive/src/"
PARSE, COMMON = D + "structs/parse.rs", D + "structs/common.rs"
INTO, FROM = D + "structs/into_bytes.rs", D + "structs/from_bytes.rs"
FNS, LIB = D + "structs/struct_fns.rs", D + "lib.rs"
EN = [D + "enums/parse.rs", D + "enums/into_bytes.rs", D + "enums/from_bytes.rs", D + "enums/partial_eq.rs"]
B = "bondrewd/src/"
TESTS = ("The existing tests run a few dozen hand-written declarations with one or two values each; the guarantee "
         "quantifies over every declaration a user can write and every value or buffer given to it")
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Struct values survive into_bytes followed by from_bytes",
  "For every valid bitfield struct declaration (any mix of integers, bool, char, floats, arrays, nested bitfields; any bit lengths, alignment, endianness, bit positioning and byte reversal) and every value whose fields fit their declared bit lengths, the declaration compiles and from_bytes(into_bytes(v)) returns v. Neither conversion panics.",
  ["programs", "inputs"], "all struct declarations of the supported grammar x all in-range values",
  TESTS + "; 26 tests reach a handful of layouts.",
  [PARSE, COMMON, INTO, FROM], [("field quotes for writing", INTO), ("field quotes for reading", FROM)],
  ["Bitfields::into_bytes", "Bitfields::from_bytes"])
p("C02", "Documented bit layout of big-endian fields",
  "In a struct whose fields use big endianness and default bit positioning, fields occupy consecutive bits in declaration order (or the explicit `bits` range), starting at the most significant bit of byte 0, each stored most significant bit first; every bit not belonging to a field is 0 in into_bytes output and ignored by from_bytes. This holds for every bit length, alignment and field type, and from_bytes of any byte array decodes exactly those bits.",
  ["programs", "inputs"], "all declarations with big-endian fields x all values and byte arrays",
  TESTS + "; be_primitives.rs fixes a few alignments.",
  [PARSE, COMMON, INTO, FROM], [("big endian field quotes", INTO), ("big endian field quotes", FROM), ("bit range assignment", PARSE)],
  ["into_bytes output", "from_bytes fields"])
p("C03", "Documented bit layout of little-endian fields",
  "A field with little endianness (explicit, by struct default, or because no endianness was given) stores its value's bytes least significant byte first within the field's bit range, the last, possibly partial, byte holding the most significant bits right-aligned; fields of at most 8 bits are stored as they would be with big endianness. This holds at every bit length and alignment, for into_bytes and for from_bytes of any byte array, and per-field endianness overrides the struct default.",
  ["programs", "inputs"], "all declarations with little-endian fields x all values and byte arrays",
  TESTS + "; le_primitives.rs fixes a few alignments.",
  [COMMON, INTO, FROM], [("little endian field quotes", INTO), ("little endian field quotes", FROM), ("default endianness", COMMON)],
  ["into_bytes output", "from_bytes fields"])
p("C04", "reverse and read_from only relocate bits",
  "Adding `reverse` to a struct declaration changes into_bytes/from_bytes exactly by reversing the order of the bytes, and `read_from = \"lsb0\"` mirrors the position of every field's bit range within the struct (the first field moves to the end) while the bits inside each field keep their order; `read_from = \"msb0\"` changes nothing. The two compose, and all generated accessors follow the same relocation.",
  ["programs", "inputs"], "all struct declarations x {reverse} x {msb0, lsb0} x all values and buffers",
  TESTS + "; only a few full-width or byte-aligned structs are tested with reverse or lsb0.",
  [COMMON, INTO, FROM], [("range mirroring", COMMON), ("byte index flipping", INTO), ("byte index flipping", FROM)],
  ["into_bytes", "from_bytes", "read_*/write_*"])
p("C05", "A field writer changes exactly its own bits",
  "For every declaration, every buffer content and every value, calling a field's generated write function stores the value (truncated to the field's length) in that field's bits and leaves every other bit of the buffer unchanged, so the next read of that field returns it and reads of non-overlapping fields are unaffected. Consequently any sequence of writes behaves like independent assignments to each field, in any order.",
  ["programs", "inputs", "histories"], "all declarations x all buffers (including dirty ones) x all write sequences",
  TESTS + "; writers are only tried on zeroed or freshly encoded buffers.",
  [INTO], [("clear masks before a write", INTO)], ["write_<field> on arbitrary buffers"])
p("C06", "Field readers agree with from_bytes on any buffer",
  "For every declaration and every byte array, each generated read function returns the same value as the corresponding field of from_bytes on that array, and into_bytes(v) equals writing each of v's fields into an all-zero array with the write functions. Reading never modifies the array and never panics, whatever the bytes.",
  ["programs", "inputs"], "all declarations x all byte arrays / values",
  TESTS + "; readers are tried on a few encoder outputs.",
  [INTO, FROM, LIB], [("peek functions", FROM), ("set functions", INTO)], ["read_<field>", "write_<field>", "from_bytes"])
p("C07", "Signed sign-extension and truncation of out-of-range values",
  "A signed field of n bits decodes as the two's complement value of its n bits, sign-extended to the field's type, for every n, alignment, endianness and byte order; encoding any integer value stores its low n bits and disturbs no other field. A char field whose bits are not a Unicode scalar value decodes to U+FFFD.",
  ["programs", "inputs"], "all declarations with integer/char fields x all values of the field types, in or out of range",
  TESTS + "; negative values are tried at two or three widths.",
  [FROM, INTO, COMMON], [("sign fix", FROM), ("value masks", INTO)], ["from_bytes", "read_<field>", "into_bytes"])
p("C08", "Element and block arrays are laid out element by element",
  "An element array behaves like that many separate consecutive fields of the element bit length; a block array of total length T stores its elements consecutively in index order at full element size except the first element, which keeps only its T mod element-size low bits (all of them if that is 0). An array given one length or range for all of it, and no block attribute, is an element array of equal parts. This holds for every element type, array length and alignment, through into_bytes, from_bytes, and the whole-array read and write functions.",
  ["programs", "inputs"], "all array field declarations x all element values and buffers",
  TESTS + "; six array shapes are tested.",
  [COMMON, PARSE, INTO, FROM], [("element/block iteration", COMMON)], ["into_bytes", "from_bytes", "read_<array>", "write_<array>"])
p("C09", "Nested bitfields occupy the leading bits of their own encoding",
  "A field whose type is itself a bitfield struct or enum is encoded as the first n bits of that value's own into_bytes output, n being the declared size of the field, and decoded by passing those bits, zero padded, to its own from_bytes; this holds for any n up to the inner type's size, at any alignment and inside arrays. Encoding or writing such a field never disturbs neighbouring fields.",
  ["programs", "inputs"], "all declarations nesting bitfields (struct_size, bit_length, arrays) x all values and buffers",
  TESTS + "; nested structs are tested at a few alignments with zeroed buffers.",
  [INTO, FROM, COMMON], [("native-endian (struct) field quotes", INTO), ("native-endian (struct) field quotes", FROM)],
  ["into_bytes", "from_bytes", "read_<field>", "write_<field>"])
p("C10", "reserve, read_only and redundant fields",
  "A `reserve` field takes up its bits but is left zero by into_bytes and becomes Default in every whole-value decode; a `read_only` field is decoded but not encoded; a `redundant` field additionally adds nothing to the size and shares the bits at its position with other fields. In all three cases the field's read and write functions still access those bits, and the other fields are unaffected.",
  ["programs", "inputs"], "all declarations with such fields at any position x all values and buffers",
  TESTS + "; the attributes appear in examples and a few doc tests that are not run.",
  [COMMON, INTO, FROM, PARSE], [("write_field/read_field options", COMMON)], ["into_bytes", "from_bytes", "from_slice", "from_vec", "read_/write_"])
p("C11", "Size constants, fill_bytes and enforcement attributes",
  "BIT_SIZE is the sum of the field bit lengths (redundant fields count 0, overlapping_bits are subtracted), or 8*N with fill_bytes = N; BYTE_SIZE is BIT_SIZE/8 rounded up and is the length of the byte array; fill_bytes never moves a field and filler bits encode as 0. enforce_bits, enforce_bytes and enforce_full_bytes make a struct or variant compile exactly when the bits defined by its fields (before filling) satisfy them; on a whole enum, enforce_bits and enforce_bytes reject every size below that of the largest variant.",
  ["programs"], "all declarations x all enforcement and fill values",
  TESTS + "; a compile-time rejection cannot be expressed in the unit tests at all.",
  [COMMON, LIB], [("enforcement and fill", COMMON)], ["BIT_SIZE", "BYTE_SIZE", "compiler accepts/rejects"])
p("C12", "Ill-formed declarations are rejected at compile time",
  "A declaration that contradicts the documented rules (overlapping field bits without opting in, float not full size, usize/isize or unknown-size types, a length attribute given twice, of zero, longer than the type or not a number, fields lying outside of the bytes, an array range that does not divide, overlapping_bits longer than the field, capture_id misuse, ids used twice or not fitting the id bits, two catch-all variants of either kind of enum, values of a BitfieldEnum over its primitive, an over-long payload, a missing id length, too small fill_bytes, unknown values of endianness, read_from or enum_primitive, unknown `name = value` attributes of fields) never compiles. The same declaration without the contradiction compiles.",
  ["programs"], "all single contradictions injected at any place of any valid declaration",
  "No test compiles an invalid declaration (there is no trybuild suite; compile_fail doc tests are not run).",
  [PARSE, COMMON, EN[0]], [("attribute and range validation", PARSE), ("enum id validation", COMMON)], ["rustc exit status and diagnostics"])
p("C13", "Enum decoding dispatches on the variant id with a catch-all",
  "For a bitfield enum, from_bytes of any byte array yields the variant whose id equals the leading id bits, and the catch-all variant (the one marked `invalid`, otherwise the last) for every other id; ids are the explicit discriminant or variant_id, and variants without one get the lowest unused values in declaration order. read_variant_id, id() and the encoded id agree with that assignment, for every id width, endianness and payload.",
  ["programs", "inputs"], "all enum declarations x all byte arrays (every id value)",
  TESTS + "; tests use enums of 3-5 variants with ids in order.",
  [COMMON, FROM, INTO], [("id assignment", COMMON), ("match generation", FROM)], ["from_bytes", "read_variant_id", "id()"])
p("C14", "Enum values survive the round trip and follow the documented layout",
  "For every bitfield enum and every value of it, into_bytes writes the id first and then that variant's fields consecutively after the id under the struct layout rules, zero-filling up to BIT_SIZE, which is the largest variant's size including the id; from_bytes of the result returns the same variant with the same fields.",
  ["programs", "inputs"], "all enum declarations (unit, named, tuple variants) x all values",
  TESTS + "; enum tests use byte-sized payloads almost exclusively.",
  [COMMON, FROM, INTO], [("variant field layout", COMMON), ("enum into/from bytes", INTO)], ["into_bytes", "from_bytes", "BIT_SIZE"])
p("C15", "capture_id exposes the raw id of a variant",
  "When a variant's first field is marked capture_id, decoding any bytes that select that variant stores the raw id in that field, id() returns it, and re-encoding such a value reproduces the same id and fields, so unknown messages are carried through unchanged up to bits not covered by any field.",
  ["programs", "inputs"], "all enums with a capturing variant x all ids reaching it",
  TESTS + "; two enums with captured ids are tested with two values each.",
  [COMMON, FROM, INTO], [("capture_id parsing", COMMON), ("id field extraction", FROM)], ["from_bytes", "id()", "into_bytes"])
p("C16", "Enum accessors touch only their own bits",
  "read_variant_id/write_variant_id and every per-variant read/write function of an enum access exactly the bits the layout gives that id or field, for any buffer contents: writes leave all other bits unchanged and reads agree with from_bytes when that variant is selected.",
  ["programs", "inputs", "histories"], "all enum declarations x all buffers x write sequences",
  TESTS + "; no test writes enum fields in place.",
  [INTO, FROM], [("enum accessors", INTO)], ["write_variant_id", "read_<variant>_<field>", "write_<variant>_<field>"])
p("C17", "Slice accessors check length and equal the array accessors",
  "With dyn_fns, every read_slice/write_slice function and check_slice/check_slice_mut, given a slice of any length, returns BitfieldLengthError(provided, required) when the slice is shorter than it requires and otherwise gives exactly the result of the array accessor on the leading bytes, never panicking and never touching bytes past BYTE_SIZE; a slice of BYTE_SIZE bytes is always enough, and the views returned by check_slice(_mut) read and write like the array accessors. Views made with from_unchecked_slice do so too where the slice holds the bytes of the field, and panic otherwise. The error's text names both lengths.",
  ["programs", "inputs", "histories"], "all declarations x all slice lengths and contents x write sequences",
  "The stable tests never build the dyn_fns feature.",
  [INTO, FROM, FNS, LIB, B + "error.rs"], [("minimum length", FROM), ("checked views", FNS)], ["read_slice_*", "write_slice_*", "check_slice", "check_slice_mut", "from_unchecked_slice"])
p("C18", "from_slice and from_vec equal from_bytes on the leading bytes",
  "With dyn_fns, from_slice and from_vec return the value from_bytes gives for the first BYTE_SIZE bytes whenever that many are present, from_vec then removing exactly those bytes and leaving the rest in order; with fewer bytes both return BitfieldLengthError(provided, BYTE_SIZE) and the vector is left as it was. Parsing a concatenation of encodings with from_vec therefore yields the encoded values in order.",
  ["programs", "inputs", "histories"], "all declarations x all vectors/slices x sequences of from_vec calls",
  "The stable tests never build the dyn_fns feature.",
  [FROM, LIB, B + "lib.rs"], [("from_vec/from_slice", FROM)], ["BitfieldsDyn::from_vec", "BitfieldsDyn::from_slice"])
p("C19", "Hex conversions are inverse, canonical and reject bad input precisely",
  "into_hex_upper/into_hex_lower give the two-digit big-nibble-first hex of into_bytes in the stated case, and from_hex, from_hex_slice and from_hex_vec of any hex text (either or mixed case) give from_bytes of the decoded bytes. The first non-hex character is reported with the character and its index, a too short slice with (length, HEX_SIZE), in the error's fields and text, and nothing panics for any input bytes.",
  ["programs", "inputs"], "all declarations x all values, all byte strings of any length",
  TESTS + "; hex.rs checks a few valid strings and no dynamic function is ever built.",
  [B + "hex.rs", B + "error.rs", LIB], [("hex traits", B + "hex.rs")], ["BitfieldHex", "BitfieldHexDyn"])
p("C20", "BitfieldEnum maps primitives and variants consistently",
  "For every BitfieldEnum declaration, into_primitive gives each variant its explicit value or, for variants without one, the lowest unused values in order; from_primitive inverts it, and every other primitive value gives the catch-all (the `invalid` variant, else the capturing variant holding the value, else the last variant). Where partial_eq is asked for, a variant equals a primitive exactly if it is that variant's value, and the catch-all equals none.",
  ["programs", "inputs"], "all fieldless (plus one capturing variant) enums x all primitive values",
  TESTS + "; six enums are tested.",
  EN, [("value assignment", EN[0]), ("match generation", EN[2])], ["from_primitive", "into_primitive", "PartialEq"])
p("C21", "Primitive enums embedded in structs use their primitive's bits",
  "A struct field with enum_primitive is stored exactly like an unsigned field of the primitive type holding into_primitive(value), at any bit length, alignment and inside arrays, and decodes via from_primitive, so unknown bit patterns yield the enum's catch-all instead of an error.",
  ["programs", "inputs"], "all declarations with BitfieldEnum fields x all values and buffers",
  TESTS + "; complex.rs uses one such enum at one alignment.",
  [PARSE, INTO, FROM], [("enum field quotes", INTO)], ["into_bytes", "from_bytes", "read_/write_"])
p("C22", "Feature flags only add API",
  "The encoding, decoding, accessor results and size constants of a declaration are the same whichever of the derive/dyn_fns/hex_fns/std features are enabled, every feature combination the crates allow builds valid declarations, and without the std feature the generated code works in no_std crates (with alloc where dyn_fns is on). The error types print, cross threads and convert into each other in every set that has them, and are std errors with std.",
  ["configurations", "programs", "inputs"], "all allowed feature sets x all declarations x all values",
  "The stable tests build exactly one feature configuration.",
  [LIB, B + "lib.rs", B + "hex.rs", B + "error.rs", INTO, FROM], [("cfg(feature) switches", LIB)], ["generated API under each feature set"])
p("C23", "Enum id comparison and id() are consistent",
  "For every bitfield enum with the id comparison enabled, value == n holds exactly when n is the id written by into_bytes for that value and returned by id(), for every variant and every n of the id type.",
  ["programs", "inputs"], "all enum declarations x all values x all ids",
  "Two enums are compared with a handful of ids; id widths beyond 16 bits and captured ids are never compared.",
  [LIB, COMMON], [("PartialEq generation", LIB)], ["PartialEq<id type>", "id()"])
p("C24", "Names, notation and attributes of others never matter",
  "The behaviour of a declaration does not depend on how it and its fields are called, how their types are spelled, or what else is in scope: with fields named by raw identifiers (`r#type`; accessors drop the prefix), by common words, or like another field with a suffix (`a_0`, `a_bytes`), and next to items named Result, Ok, Err, Some, None, Vec or String, itself called Vec, Option or PartialEq, with the types of its fields written as paths or passed in by a macro (`$t:ty`), it still compiles and every conversion and accessor does the same as with neutral names. Only names already used by the documented accessors or the parameters input_byte_buffer and output_byte_buffer are out of reach. Nor does it depend on the visibility of the declaration and its fields, on the notation of numbers (`0x10`, `1_6`), or on attributes which are not Bondrewd's: documentation in any form, deprecation, lints, cfg_attr and the helper attributes of other derive macros, whatever they are called, on the declaration, its variants or its fields have no effect and never keep it from compiling.",
  ["programs", "inputs"], "all declarations x all field names, items in scope, notations and foreign attributes x all values and buffers",
  "The tests use a few plain names in otherwise empty modules.",
  [INTO, FROM, LIB, COMMON, PARSE], [("names of generated functions", INTO), ("local names", FROM), ("attribute parsing", PARSE)], ["all generated functions"])
p("C25", "The generated code is reproducible and 100% safe",
  "What the derive macros generate is a function of the declaration and the crate features alone: expanding the same declaration again, in another process, in another place of the crate or next to other declarations, gives the same code, and none of it is unsafe code.",
  ["programs", "configurations"], "all declarations x all expansions of them",
  "Tests expand every declaration once per build and never look at what was generated.",
  [D + "lib.rs", COMMON, INTO, FROM, EN[0]], [("expansion", LIB), ("id assignment", COMMON), ("value assignment", EN[0])], ["the expansion of derive(Bitfields) and derive(BitfieldEnum)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
