#![allow(static_mut_refs)]
#[macro_use]
pub mod util;
pub mod args;
pub mod codec;
pub mod diag;
pub mod env;
pub mod idents;
pub mod srv;
pub mod place;
pub mod typed;
pub mod world;

symrt::models!();

table! {
    codec: c01_roundtrip, c01_many, c02_sizes, c02_count, c03_parse, c03_near, c03_long, c03_items, c04_items, c04_stable, c04_prefix, c04_near, c04_long, c23_print, c23_long, c23_items;
    args: c05_encode, c05_decode, c05_limits, c05_near, c05_digits, c05_bool, c06_bytes, c06_str, c06_ident, c06_long, c05_long, c06_version;
    idents: c07_any, c07_digits, c07_near, c07_long, c07_same, c08_long, c09_base, c08_parse, c08_select, c08_chain, c09_valid, c09_size, c09_tree, c09_wide, c09_far, c22_secret, c22_client, c22_screen;
    env: c24_near, c24_prefix, c24_any, c24_args, c24_limit, c24_none;
    place: c27_path;
    diag: c30_discard, c30_pair, c30_long, c30_big, c30_parse, c30_offset, c30_kinds, c30_io, c30_errno, c30_hello;
    typed: c10_roundtrip, c10_strict, c10_type, c10_long;
    srv: c11_near, c11_any, c11_hello, c11_long, c11_other, c12_client, c12_screen, c13_split, c13_any, c13_long, c13_many, c14_script, c14_any, c14_long, c14_near, c15_type, c15_args, c15_seq, c15_long, c16_make, c16_long, c17_end, c17_long, c18_stdout, c18_stdin, c18_closed, c25_many;
}
