#![allow(static_mut_refs, dead_code)]
#[macro_use]
#[path = "../../harness/src/util.rs"]
pub mod util;
#[path = "../../harness/src/srv.rs"]
pub mod srv;
#[path = "../../harness/src/world.rs"]
pub mod world;
pub mod tok;

symrt::models!();

table! {
    tok: c19_messages, c19_wrong, c19_stdin, c19_replies, c20_broadcasts, c20_many, c20_teardown, c20_leave, c20_end, c20_threads, c20_arrival, c19_threads, c21_threads, c26_threads, c21_rx, c21_any, c21_long, c25_reply, c26_shutdown, c26_error, c26_early;
}
