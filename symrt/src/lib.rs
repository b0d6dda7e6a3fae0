//! Primitives with which harnesses talk to the symbolic executor (`sym` feature) or to the
//! native replayer, which takes the values of all symbolic inputs from a recorded list.
#![allow(unused_unsafe, static_mut_refs)]

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        pub fn vt6_sym_int(bits: u32) -> u64;
        pub fn vt6_sym_bytes(p: *mut u8, n: usize);
        pub fn vt6_sym_choice(n: u64) -> u64;
        pub fn vt6_sym_assume(c: bool);
        pub fn vt6_sym_cover(id: u32);
        pub fn vt6_sym_observe(tag: u32, p: *const u8, n: usize);
        pub fn vt6_sym_allow_panic(c: bool);
        pub fn vt6_sym_nested(c: bool);
        pub fn vt6_sym_param(i: u32) -> u64;
        pub fn vt6_sym_concretize(x: u64) -> u64;
    }
}

#[cfg(not(feature = "sym"))]
pub mod native;
#[cfg(not(feature = "sym"))]
use native as imp;

macro_rules! call {
    ($e:expr) => {
        unsafe {
            $e
        }
    };
}

pub fn u8_() -> u8 {
    call!(imp::vt6_sym_int(8)) as u8
}
pub fn u16_() -> u16 {
    call!(imp::vt6_sym_int(16)) as u16
}
pub fn u32_() -> u32 {
    call!(imp::vt6_sym_int(32)) as u32
}
pub fn u64_() -> u64 {
    call!(imp::vt6_sym_int(64))
}
pub fn usize_() -> usize {
    call!(imp::vt6_sym_int(64)) as usize
}
pub fn bool_() -> bool {
    let x = call!(imp::vt6_sym_int(1));
    x == 1
}
/// `n` unconstrained bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    fill(&mut v);
    v
}
pub fn fill(v: &mut [u8]) {
    if !v.is_empty() {
        call!(imp::vt6_sym_bytes(v.as_mut_ptr(), v.len()))
    }
}
/// Every value of `0..n`, each on paths of its own.
pub fn choice(n: usize) -> usize {
    call!(imp::vt6_sym_choice(n as u64)) as usize
}
/// Restricts the claim to executions where `c` holds.
pub fn assume(c: bool) {
    call!(imp::vt6_sym_assume(c))
}
/// Marks a situation that must be reachable for the check to mean anything.
pub fn cover(id: u32) {
    call!(imp::vt6_sym_cover(id))
}
/// Records bytes computed by the code; compared with the native run of the same inputs.
pub fn observe(tag: u32, b: &[u8]) {
    call!(imp::vt6_sym_observe(tag, b.as_ptr(), b.len()))
}
pub fn allow_panic(c: bool) {
    call!(imp::vt6_sym_allow_panic(c))
}
/// Whether another thread has been interrupted; whoever waits for a lock then ends the path.
pub fn nested(c: bool) {
    call!(imp::vt6_sym_nested(c))
}
/// From now on getrandom(2) yields fresh unconstrained bytes, and they are logged. Otherwise it
/// yields a fixed pattern.
pub fn random_start() {
    rnd::with(|r| {
        r.on = true;
        r.len = 0;
    })
}
/// Otherwise every draw yields another pattern from now on.
pub fn distinct() {
    // hash maps draw their keys once, and natively not through here
    let _ = std::collections::hash_map::RandomState::new();
    rnd::with(|r| {
        r.on = false;
        r.draws = 1;
    })
}
/// Ends what `random_start` began; returns the bytes that were drawn.
pub fn random_stop() -> Vec<u8> {
    rnd::with(|r| {
        r.on = false;
        r.log[..r.len].to_vec()
    })
}

pub mod rnd {
    pub struct R {
        pub on: bool,
        pub len: usize,
        /// if not zero: patterns differ, this is the next one
        pub draws: u8,
        pub log: [u8; 512],
    }
    // one path of one harness at a time, natively one thread per replay
    #[cfg(feature = "sym")]
    static mut STATE: R = R { on: false, len: 0, draws: 0, log: [0; 512] };
    #[cfg(feature = "sym")]
    pub fn with<T>(f: impl FnOnce(&mut R) -> T) -> T {
        unsafe { f(&mut *core::ptr::addr_of_mut!(STATE)) }
    }
    #[cfg(not(feature = "sym"))]
    thread_local! {
        static STATE: std::cell::RefCell<R> = const { std::cell::RefCell::new(R { on: false, len: 0, draws: 0, log: [0; 512] }) };
    }
    #[cfg(not(feature = "sym"))]
    pub fn with<T>(f: impl FnOnce(&mut R) -> T) -> T {
        STATE.with(|s| f(&mut s.borrow_mut()))
    }
    /// # Safety
    /// `p` points to `n` writable bytes.
    pub unsafe fn getrandom(p: *mut u8, n: usize) {
        with(|r| {
            for i in 0..n {
                *p.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) ^ r.draws;
            }
            // drawing nothing is how its presence is found out, once
            if r.draws != 0 && n > 0 {
                r.draws += 1;
            }
            if r.on {
                crate::fill(std::slice::from_raw_parts_mut(p, n));
                for i in 0..n {
                    r.log[r.len] = *p.add(i);
                    r.len += 1;
                }
            }
        })
    }
}

/// Stand-ins for libc functions; expanded once in the crate that is executed.
#[macro_export]
macro_rules! models {
    () => {
        #[cfg(feature = "sym")]
        mod vt6_models {
            static mut ERRNO: i32 = 0;
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
                $crate::rnd::getrandom(p, n);
                n as isize
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_syscall(nr: i64, a: usize, b: usize, _c: usize) -> i64 {
                match nr {
                    318 => {
                        $crate::rnd::getrandom(a as *mut u8, b);
                        b as i64
                    }
                    // futex: nobody else runs, so waiting is for ever
                    202 if b & 127 == 0 || b & 127 == 9 => panic!("deadlock"),
                    202 => 0,
                    _ => panic!("system call {}", nr),
                }
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model___errno_location() -> *mut i32 {
                core::ptr::addr_of_mut!(ERRNO)
            }
            static mut KEYS: [usize; 16] = [0; 16];
            static mut NKEYS: u32 = 0;
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_pthread_key_create(key: *mut u32, _dtor: usize) -> i32 {
                NKEYS += 1;
                *key = NKEYS;
                0
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_pthread_key_delete(_key: u32) -> i32 {
                0
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_pthread_getspecific(key: u32) -> usize {
                KEYS[key as usize]
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_pthread_setspecific(key: u32, v: usize) -> i32 {
                KEYS[key as usize] = v;
                0
            }
            // time goes on, but what it is does not matter to anything
            static mut NOW: i64 = 1_000_000;
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_clock_gettime(_clock: i32, t: *mut i64) -> i32 {
                NOW += 1;
                *t = NOW / 1000;
                *t.add(1) = NOW % 1000 * 1_000_000;
                0
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_nanosleep(_t: *const i64, _rest: *mut i64) -> i32 {
                0
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_clock_nanosleep(_clock: i32, _flags: i32, _t: *const i64, _rest: *mut i64) -> i32 {
                0
            }
            #[no_mangle]
            pub unsafe extern "C" fn vt6_model_writev(_fd: i32, v: *const usize, n: i32) -> isize {
                (0..n as usize).map(|i| *v.add(2 * i + 1)).sum::<usize>() as isize
            }
        }
    };
}

/// Harness parameter `i` (concrete: sizes and shapes).
pub fn param(i: u32) -> usize {
    call!(imp::vt6_sym_param(i)) as usize
}
/// One path per feasible value.
pub fn concrete(x: usize) -> usize {
    call!(imp::vt6_sym_concretize(x as u64)) as usize
}
