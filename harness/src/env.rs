//! Discovery of the terminal on file descriptor 60. The descriptor is simulated below the standard
//! library: read(2), close(2) and fcntl(2) on it are answered here, natively as well.
use crate::util::*;
use vt6::client::*;

#[derive(Clone, Copy, PartialEq)]
enum End {
    Eof,
    Error,
    /// the terminal keeps the descriptor open and sends nothing more
    Wait,
}

struct Fd {
    data: Vec<u8>,
    pos: usize,
    /// no read goes beyond the next of these
    cuts: Vec<usize>,
    end: End,
    errno: i32,
    open: bool,
    reads: usize,
    closed: usize,
}
static mut FD: Option<Fd> = None;

extern "C" {
    fn __errno_location() -> *mut i32;
}
const EBADF: i32 = 9;
const EINVAL: i32 = 22;

unsafe fn fail(e: i32) -> isize {
    *__errno_location() = e;
    -1
}

unsafe fn fd60_read(f: &mut Fd, p: *mut u8, n: usize) -> isize {
    if !f.open {
        return fail(EBADF);
    }
    if n == 0 {
        return 0;
    }
    f.reads += 1;
    let left = f.data.len() - f.pos;
    if left == 0 {
        match f.end {
            End::Eof => return 0,
            End::Error => return fail(f.errno),
            End::Wait => {
                // waiting for more is right as long as there is no complete hello
                assert!(reference(&f.data).is_none(), "waits although the hello is complete or invalid");
                assume(false);
            }
        }
    }
    let mut k = if left < n { left } else { n };
    for c in &f.cuts {
        if *c > f.pos && *c - f.pos < k {
            k = *c - f.pos;
        }
    }
    for i in 0..k {
        *p.add(i) = f.data[f.pos + i];
    }
    f.pos += k;
    k as isize
}
unsafe fn fd60_close(f: &mut Fd) -> i32 {
    if !f.open {
        return fail(EBADF) as i32;
    }
    f.open = false;
    f.closed += 1;
    0
}
unsafe fn fd60_fcntl(f: &mut Fd) -> i32 {
    if f.open {
        1
    } else {
        fail(EBADF) as i32
    }
}
#[cfg(feature = "sym")]
mod models {
    use super::*;
    unsafe fn fd(n: i32) -> &'static mut Fd {
        assert!(n == 60);
        FD.as_mut().expect("no descriptor")
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_read(n: i32, p: *mut u8, len: usize) -> isize {
        fd60_read(fd(n), p, len)
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_close(n: i32) -> i32 {
        fd60_close(fd(n))
    }
    #[no_mangle]
    pub unsafe extern "C" fn vt6_model_fcntl(n: i32, _cmd: i32) -> i32 {
        fd60_fcntl(fd(n))
    }
}
#[cfg(not(feature = "sym"))]
mod models {
    use super::*;
    extern "C" {
        fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64;
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(n: i32, p: *mut u8, len: usize) -> isize {
        match FD.as_mut() {
            Some(f) if n == 60 => fd60_read(f, p, len),
            _ => syscall(0, n as usize, p as usize, len, 0, 0, 0) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(n: i32) -> i32 {
        match FD.as_mut() {
            Some(f) if n == 60 => fd60_close(f),
            _ => syscall(3, n as usize, 0, 0, 0, 0, 0) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(n: i32, cmd: i32, arg: usize) -> i32 {
        match FD.as_mut() {
            Some(f) if n == 60 => fd60_fcntl(f),
            _ => syscall(72, n as usize, cmd as usize, arg, 0, 0, 0) as i32,
        }
    }
}

#[derive(Clone, PartialEq)]
enum Is {
    Hello(Vec<u8>),
    Other(Vec<u8>, Vec<Vec<u8>>),
    Corrupt,
}

/// What the first 1024 bytes say; nothing if they are the beginning of a message and more fits.
fn reference(s: &[u8]) -> Option<Is> {
    let s = if s.len() > 1024 { &s[..1024] } else { s };
    if let Some(r) = parse(s) {
        return Some(if r.ty == b"posix1.parent-hello" && r.args.len() == 2 && utf8(r.args[0]) {
            Is::Hello(r.args[1].to_vec())
        } else {
            Is::Other(r.ty.to_vec(), r.args.iter().map(|a| a.to_vec()).collect())
        });
    }
    // whether it is incomplete or invalid is the parser's verdict (checked by C04)
    match vt6::common::core::msg::Message::parse(s) {
        Err(e) if e.is_incomplete() && s.len() < 1024 => None,
        _ => Some(Is::Corrupt),
    }
}

fn discovered(e: &Environment) -> Result<Is, ()> {
    use std::os::unix::ffi::OsStrExt;
    match e.parse() {
        Ok(r) => Ok(Is::Hello(r.server_socket_path().as_os_str().as_bytes().to_vec())),
        Err(EnvironmentError::NoVT6Terminal) => Err(()),
        Err(EnvironmentError::CorruptParentHello(_)) => Ok(Is::Corrupt),
        Err(EnvironmentError::InvalidParentHello(m)) => {
            Ok(Is::Other(m.parsed_type().as_str().as_bytes().to_vec(), m.arguments().map(|a| a.to_vec()).collect()))
        }
    }
}

/// `data` arrives on the descriptor in pieces and then it ends.
fn discovery(data: Vec<u8>, cuts: Vec<usize>, end: End, errno: i32) {
    let n = data.len();
    unsafe { FD = Some(Fd { data: data.clone(), pos: 0, cuts, end, errno, open: true, reads: 0, closed: 0 }) };
    let e = Environment::discover();
    let f = unsafe { FD.take().expect("still there") };
    assert!(f.closed == 1 && !f.open, "the descriptor is closed once");
    let r = reference(&data);
    match e {
        Err(e) => {
            assert!(end == End::Error && f.pos == n);
            assert!(e.raw_os_error() == Some(errno));
            assert!(r.is_none(), "fails although the hello is complete or invalid");
            assert!(f.reads > 1 || (errno != EINVAL && errno != EBADF));
            cover(1);
        }
        Ok(e) => {
            let got = discovered(&e);
            assert!(got == discovered(&e));
            if end == End::Error && n == 0 {
                assert!(got == Err(()) && (errno == EINVAL || errno == EBADF));
                cover(2);
                return;
            }
            let got = got.expect("there is a terminal");
            match r {
                Some(r) => {
                    assert!(got == r);
                    if let Is::Hello(p) = &r {
                        observe(1, p);
                    }
                    cover(match r { Is::Hello(_) => 3, Is::Other(..) => 4, Is::Corrupt => 5 });
                }
                None => {
                    // the stream ended early
                    assert!(end == End::Eof && f.pos == n);
                    assert!(got == Is::Corrupt);
                    cover(6);
                }
            }
        }
    }
}

fn end() -> (End, i32) {
    match choice(3) {
        0 => (End::Eof, 0),
        1 => (End::Wait, 0),
        _ => {
            let e = u16_() as i32;
            // an interrupted read may be repeated
            assume(e > 0 && e < 4096 && e != 4);
            (End::Error, e)
        }
    }
}
fn cuts(n: usize, len: usize) -> Vec<usize> {
    match n {
        0 => (1..len).collect(),
        1 => vec![choice(len + 1)],
        3 => vec![],
        _ => {
            let c = choice(len + 1);
            vec![c, c + choice(len + 1 - c)]
        }
    }
}
const HELLO: &[u8] = b"posix1.parent-hello";

harness! {
    // params: length of the path, arbitrary bytes, bytes behind, cuts (0 everywhere, 3 none)
    fn c24_near() {
        let mut s = render(HELLO, &[b"s1", &bytes(param(0))]);
        if param(1) > 0 {
            s = near(&s, param(1));
        }
        s.extend(bytes(param(2)));
        let c = cuts(param(3), s.len());
        let (e, n) = end();
        discovery(s, c, e, n);
    }
    // params: length of the path, cuts: every proper prefix of a hello
    fn c24_prefix() {
        let mut s = render(HELLO, &[b"s1", &bytes(param(0))]);
        s.truncate(choice(s.len()));
        let c = cuts(param(1), s.len());
        let (e, n) = end();
        discovery(s, c, e, n);
    }
    // params: length, cuts
    fn c24_any() {
        let s = bytes(param(0));
        let c = cuts(param(1), s.len());
        let (e, n) = end();
        discovery(s, c, e, n);
    }
    // params: number of arguments, their length, message type (0 hello, 1 another, n > 3 any scoped of that length), cuts
    fn c24_args() {
        let v: Vec<Vec<u8>> = (0..param(0)).map(|_| bytes(param(1))).collect();
        let a: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let ty = match param(2) { 0 => HELLO.to_vec(), 1 => b"posix1.client-hello".to_vec(), 2 => b"want".to_vec(), n => { let b = bytes(n); assume(is_scoped(&b)); b } };
        let s = render(&ty, &a);
        let c = cuts(param(3), s.len());
        let (e, n) = end();
        discovery(s, c, e, n);
    }
    // params: total length of the hello, bytes behind, cuts: around the limit of 1024 bytes
    fn c24_limit() {
        let mut p = vec![];
        while render(HELLO, &[b"s1", &p]).len() < param(0) {
            p.push(b'/');
        }
        let k = p.len() - 4;
        fill(&mut p[k..]);
        let mut s = render(HELLO, &[b"s1", &p]);
        assert!(s.len() == param(0));
        s.extend(bytes(param(1)));
        // in the middle, or around the limit
        let c = match param(2) { 1 => vec![s.len() - choice(40)], 2 => vec![1, 512, s.len() - choice(40)], _ => cuts(param(2), s.len()) };
        let (e, n) = end();
        discovery(s, c, e, n);
    }
    // no such descriptor
    fn c24_none() {
        unsafe { FD = Some(Fd { data: vec![], pos: 0, cuts: vec![], end: End::Eof, errno: 0, open: false, reads: 0, closed: 0 }) };
        let e = Environment::discover();
        unsafe { FD = None };
        let e = e.expect("not an IO error");
        assert!(discovered(&e) == Err(()));
        cover(1);
    }
}
