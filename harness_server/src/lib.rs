//! The example server as a whole, with its main function: what its clients see.
#![allow(static_mut_refs, dead_code, unused_imports)]

include!("/repo/example-server/src/main.rs");

#[macro_use]
#[path = "../../harness/src/util.rs"]
pub mod util;
pub mod world;
pub mod serve;

symrt::models!();

table! {
    serve: c28_first, c28_any, c28_seq, c28_tree, c28_ids, c28_race, c29_ticks, c29_stdout, c29_interrupt;
}
