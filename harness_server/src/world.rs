//! What the server finds outside: environment, files, clients.
use crate::util::*;
use tokio::model;

/// The result of the main function, whichever form it has.
pub trait Outcome {
    fn good(&self) -> bool;
}
impl Outcome for () {
    fn good(&self) -> bool {
        true
    }
}
impl<E> Outcome for Result<(), E> {
    fn good(&self) -> bool {
        self.is_ok()
    }
}

pub static mut UNLINKED: usize = 0;
const DIR: &[u8] = b"/run/user\0";

/// The environment: XDG_RUNTIME_DIR is /run/user. Every path is a directory.
unsafe fn env(name: *const u8) -> *const u8 {
    for (i, c) in b"XDG_RUNTIME_DIR\0".iter().enumerate() {
        if *name.add(i) != *c {
            return std::ptr::null();
        }
    }
    DIR.as_ptr()
}
unsafe fn stat(path: *const u8, out: *mut u8) -> i32 {
    assert!(!path.is_null() && *path == b'/');
    std::ptr::write_bytes(out, 0, 256);
    // stx_mask, stx_mode
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = 0o040755;
    0
}
#[cfg(feature = "sym")]
mod models {
    use super::*;
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_getenv(name: *const u8) -> *const u8 {
        env(name)
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_statx(_dir: i32, path: *const u8, _flags: i32, _mask: u32, out: *mut u8) -> i32 {
        stat(path, out)
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_mkdir(_path: *const u8, _mode: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_getpid() -> i32 {
        4711
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_unlink(_p: *const u8) -> i32 {
        UNLINKED += 1;
        0
    }
}
#[cfg(not(feature = "sym"))]
mod models {
    use super::*;
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        env(name)
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(_dir: i32, path: *const u8, _flags: i32, _mask: u32, out: *mut u8) -> i32 {
        stat(path, out)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(_path: *const u8, _mode: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> i32 {
        4711
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(_p: *const u8) -> i32 {
        UNLINKED += 1;
        0
    }
}

/// What the server announces when it starts.
pub struct Announced {
    /// client, stdin, stdout
    pub secrets: [Vec<u8>; 3],
}
pub const HELLO: [&[u8]; 3] = [b"posix1.client-hello", b"posix1.stdin-hello", b"posix1.stdout-hello"];

/// Runs the server from its beginning to its end, which is an interrupt if `f` does not end it.
pub fn serve(f: impl FnOnce(Announced) + 'static) {
    model::reset();
    unsafe { UNLINKED = 0 }
    distinct();
    belog::take();
    model::drive(move || {
        settle();
        let mut s: [Vec<u8>; 3] = Default::default();
        for l in belog::take() {
            let l = l.as_bytes();
            if let Some(p) = l.iter().position(|c| *c == b'{') {
                if let Some(m) = parse(&l[p..]) {
                    if let Some(k) = HELLO.iter().position(|h| *h == m.ty) {
                        assert!(m.args.len() == 1 && s[k].is_empty());
                        s[k] = m.args[0].to_vec();
                    }
                }
            }
        }
        assert!(s.iter().all(|s| !s.is_empty()), "a secret is not announced");
        assert!(s[0] != s[1] && s[0] != s[2] && s[1] != s[2]);
        f(Announced { secrets: s });
        model::raise(2);
        settle();
    });
    let r = crate::main();
    assert!(r.good(), "the server ends with an error");
    assert!(unsafe { UNLINKED } == 1, "the socket is still there");
    assert!(!model::with(|n| n.listening));
}
pub fn settle() {
    assert!(model::settle(2000), "never comes to rest");
}
/// Everything happens, with up to `budget` preemptions; the first `free` tasks run in any order.
pub fn race(budget: usize, free: usize) {
    model::preemptions(budget);
    for _ in 0..free {
        let r = model::runnable();
        if r.is_empty() {
            break;
        }
        model::run(r[choice(r.len())]);
    }
    settle();
    model::preemptions(0);
    if model::preempted() > 0 {
        cover(50);
    }
}
pub fn send(i: usize, b: &[u8]) {
    model::client(i, |s| s.input.extend_from_slice(b));
    settle();
}
pub fn connect(b: &[u8]) -> usize {
    let i = model::connect();
    send(i, b);
    i
}
pub fn hello(kind: usize, secret: &[u8]) -> usize {
    connect(&render(HELLO[kind], &[secret]))
}
pub fn leave(i: usize) {
    model::client(i, |s| s.eof = true);
    settle();
    assert!(!open(i));
}
/// What the client of connection `i` has received since this was last asked.
pub fn received(i: usize) -> Vec<u8> {
    model::with(|n| std::mem::take(&mut n.socks[i].output))
}
/// Does the server still hold the connection?
pub fn open(i: usize) -> bool {
    let (a, b) = model::sock(i, |s| (s.rx_open, s.tx_open));
    assert!(a == b, "half closed");
    a
}
pub fn second() {
    model::advance(std::time::Duration::from_secs(1));
    settle();
}
