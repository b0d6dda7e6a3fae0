//! Replays recorded inputs against the natively compiled code.

use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct Ctx {
    inputs: Vec<u64>,
    next: usize,
    params: Vec<u64>,
    events: Vec<String>,
    allow_panic: bool,
    panic: Option<String>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

struct Diverged(&'static str);

fn take() -> u64 {
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.next;
        c.next += 1;
        c.inputs.get(i).copied()
    });
    match v {
        Some(v) => v,
        None => std::panic::panic_any(Diverged("input list exhausted")),
    }
}

pub fn vt6_sym_int(_bits: u32) -> u64 {
    take()
}
pub fn vt6_sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        let v = take() as u8;
        unsafe { *p.add(i) = v }
    }
}
pub fn vt6_sym_choice(n: u64) -> u64 {
    let v = take();
    if v >= n {
        std::panic::panic_any(Diverged("choice out of range"));
    }
    v
}
pub fn vt6_sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Diverged("assumption does not hold"));
    }
}
pub fn vt6_sym_cover(id: u32) {
    CTX.with(|c| c.borrow_mut().events.push(format!("c{}", id)));
}
pub fn vt6_sym_observe(tag: u32, p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    CTX.with(|c| c.borrow_mut().events.push(format!("o{}:{}", tag, s)));
}
pub fn vt6_sym_allow_panic(x: bool) {
    CTX.with(|c| c.borrow_mut().allow_panic = x);
}
pub fn vt6_sym_nested(_: bool) {}
pub fn vt6_sym_param(i: u32) -> u64 {
    CTX.with(|c| c.borrow().params[i as usize])
}
pub fn vt6_sym_concretize(x: u64) -> u64 {
    x
}

/// Stand-in for getrandom(2), used by std and by the getrandom crate alike.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    crate::rnd::getrandom(p, n);
    n as isize
}

/// The getrandom crate draws through syscall(2); everything else goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if nr == 318 {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") nr => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

pub type Harness = (&'static str, extern "C-unwind" fn());

/// Reads requests `harness|params|inputs` from stdin, one per line, and answers each with one
/// line `OK <events>`, `PANIC <location>|<message>`, `ALLOWED <events>` or `DIVERGED <why>`.
pub fn main(table: &'static [Harness]) {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = CTX.try_with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                if c.panic.is_none() {
                    c.panic = Some(format!("{}|{}", loc, m.replace('\n', " ")));
                }
            }
        });
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<String> = line.split('|').map(String::from).collect();
        let nums = |s: &str| -> Vec<u64> { s.split_whitespace().map(|x| x.parse().unwrap()).collect() };
        let (params, inputs) = (nums(&p[1]), nums(&p[2]));
        let f = match table.iter().find(|t| t.0 == p[0]) {
            Some(t) => t.1,
            None => {
                println!("DIVERGED no such harness");
                continue;
            }
        };
        // a thread per request: fresh thread-locals
        let res = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                CTX.with(|c| *c.borrow_mut() = Ctx { inputs, params, ..Ctx::default() });
                let r = std::panic::catch_unwind(move || f());
                CTX.with(|c| {
                    let c = c.borrow();
                    let ev = c.events.join(" ");
                    match r {
                        Ok(()) if c.next != c.inputs.len() => format!("DIVERGED {} of {} inputs used", c.next, c.inputs.len()),
                        Ok(()) => format!("OK {}", ev),
                        Err(e) => match e.downcast_ref::<Diverged>() {
                            Some(d) => format!("DIVERGED {}", d.0),
                            None if c.allow_panic => format!("ALLOWED {}", ev),
                            None => format!("PANIC {}", c.panic.clone().unwrap_or_default()),
                        },
                    }
                })
            })
            .unwrap()
            .join()
            .unwrap();
        println!("{}", res);
        let _ = std::io::stdout().flush();
    }
}
