//! A derive macro of somebody else, whose helper attributes are called like Bondrewd's own.
extern crate proc_macro;

#[proc_macro_derive(
    Foreign,
    attributes(
        reserve, read_only, redundant, reverse, invalid, bit_length, byte_length, endianness, default_endianness, bits, fill_bytes, enforce_bytes,
        enforce_bits, enforce_full_bytes, id_bit_length, variant_id, capture_id, read_from, overlapping_bits, struct_size, enum_primitive,
        element_bit_length, block_bit_length, partial_eq, bondrewd_field
    )
)]
pub fn foreign(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    proc_macro::TokenStream::new()
}
