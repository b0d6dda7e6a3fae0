//! The default place of the server socket. Environment and files are simulated below the standard
//! library: getenv(3), statx(2), mkdir(2) and getpid(2) are answered here, natively as well.
use crate::util::*;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Clone, Copy, PartialEq)]
enum Node {
    Dir,
    File,
    /// an error number
    Fails(i32),
}
struct Files {
    /// with a zero byte at the end
    var: Option<Vec<u8>>,
    /// what is there, and what is in it
    base: Node,
    /// vt6 in it before and after the attempt to make it, and the result of that
    before: Node,
    after: Node,
    made: i32,
    makes: usize,
    pid: i32,
}
static mut FILES: Option<Files> = None;
const ENOENT: i32 = 2;

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn fail(e: i32) -> i32 {
    *__errno_location() = e;
    -1
}
unsafe fn name(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    let mut p = p;
    while *p != 0 {
        v.push(*p);
        p = p.add(1);
    }
    v
}
impl Files {
    fn dir(&self) -> &[u8] {
        let v = self.var.as_ref().expect("asks for files although the variable is not set");
        &v[..v.len() - 1]
    }
    fn sub(&self) -> Vec<u8> {
        [self.dir(), b"/vt6"].concat()
    }
    fn node(&self, p: &[u8]) -> Node {
        if p.is_empty() {
            Node::Fails(ENOENT)
        } else if same(p, self.dir()) {
            self.base
        } else if same(p, &self.sub()) {
            if self.makes > 0 { self.after } else { self.before }
        } else {
            panic!("looks at something else")
        }
    }
}
/// The same path.
fn same(a: &[u8], b: &[u8]) -> bool {
    use std::ffi::OsStr;
    a == b || Path::new(OsStr::from_bytes(a)) == Path::new(OsStr::from_bytes(b))
}
unsafe fn env(f: &Files, n: *const u8) -> *const u8 {
    match &f.var {
        Some(v) if name(n) == b"XDG_RUNTIME_DIR" => v.as_ptr(),
        _ => std::ptr::null(),
    }
}
unsafe fn stat(f: &Files, p: *const u8, out: *mut u8) -> i32 {
    if p.is_null() {
        // asks whether there is such a system call
        return fail(14);
    }
    let mode: u16 = match f.node(&name(p)) {
        Node::Dir => 0o040755,
        Node::File => 0o100644,
        Node::Fails(e) => return fail(e),
    };
    std::ptr::write_bytes(out, 0, 256);
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = mode;
    0
}
unsafe fn make(f: &mut Files, p: *const u8) -> i32 {
    assert!(f.base == Node::Dir, "creates a directory although there is no runtime directory");
    let n = name(p);
    if same(&n, f.dir()) {
        return fail(17);
    }
    assert!(same(&n, &f.sub()), "creates something else");
    f.makes += 1;
    if f.made != 0 {
        return fail(f.made);
    }
    0
}
#[cfg(feature = "sym")]
mod models {
    use super::*;
    unsafe fn f() -> &'static mut Files {
        FILES.as_mut().expect("no files")
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_getenv(n: *const u8) -> *const u8 {
        match FILES.as_ref() {
            Some(f) => env(f, n),
            None => std::ptr::null(),
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_statx(_dir: i32, p: *const u8, _flags: i32, _mask: u32, out: *mut u8) -> i32 {
        stat(f(), p, out)
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_mkdir(p: *const u8, _mode: u32) -> i32 {
        make(f(), p)
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_getpid() -> i32 {
        f().pid
    }
}
#[cfg(not(feature = "sym"))]
mod models {
    use super::*;
    extern "C" {
        fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64;
        static environ: *const *const u8;
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(n: *const u8) -> *const u8 {
        if let Some(f) = FILES.as_ref() {
            return env(f, n);
        }
        let n = name(n);
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let x = name(*e);
            if x.starts_with(&n) && x.get(n.len()) == Some(&b'=') {
                return (*e).add(n.len() + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(dir: i32, p: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
        match FILES.as_ref() {
            Some(f) => stat(f, p, out),
            None => syscall(332, dir as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
        match FILES.as_mut() {
            Some(f) => make(f, p),
            None => syscall(83, p as usize, mode as usize, 0, 0, 0, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> i32 {
        match FILES.as_ref() {
            Some(f) => f.pid,
            None => syscall(39, 0, 0, 0, 0, 0, 0) as i32,
        }
    }
}

/// Any error number, but not those that mean something else.
fn errno() -> i32 {
    let e = u8_() as i32;
    assume(e >= 1 && e <= 133 && e != ENOENT && e != 4 && e != 17 && e != 38);
    e
}

harness! {
    // params: length of the runtime directory's name, what happens
    fn c27_path() {
        let mut v = bytes(param(0));
        assume(all(&v, |b| b != 0));
        let dir = v.clone();
        v.push(0);
        let pid = pick(&[1, 9, 10, 4711, 99999, 4_194_304]);
        let e = if matches!(param(1), 3 | 5) { errno() } else { 13 };
        let (var, base, before, after, made) = match param(1) {
            0 => (Some(v), Node::Dir, Node::Fails(ENOENT), Node::Dir, 0),
            1 => (Some(v), Node::Dir, Node::Dir, Node::Dir, 17),
            2 => (Some(v), Node::Dir, Node::File, Node::File, 17),
            3 => (Some(v), Node::Dir, Node::Fails(ENOENT), Node::Fails(ENOENT), e),
            4 => (Some(v), Node::File, Node::Fails(20), Node::Fails(20), e),
            5 => (Some(v), Node::Fails(e), Node::Fails(e), Node::Fails(e), e),
            6 => (Some(v), Node::Fails(ENOENT), Node::Fails(ENOENT), Node::Fails(ENOENT), ENOENT),
            // somebody else makes it at the same time
            7 => (Some(v), Node::Dir, Node::Fails(ENOENT), Node::Dir, 17),
            _ => (None, Node::Dir, Node::Dir, Node::Dir, 17),
        };
        let good = matches!(param(1), 0 | 1 | 7) && !dir.is_empty();
        unsafe {
            FILES = Some(Files { var, base, before, after, made, makes: 0, pid: pid as i32 });
        }
        let r = vt6::server::default_socket_path();
        let f = unsafe { FILES.take().unwrap() };
        match r {
            Ok(p) => {
                assert!(good, "a path without a directory for it");
                let want = [&dir[..], b"/vt6/", &dec(pid as usize)].concat();
                assert!(same(p.as_os_str().as_bytes(), &want), "another path");
                assert!(f.before == Node::Dir || f.makes > 0, "the directory has not been made");
                cover(1);
            }
            Err(_) => {
                assert!(!good, "no path");
                cover(2);
            }
        }
    }
}
