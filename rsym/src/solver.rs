//! Satisfiability of path constraints, decided by Z3 (bit-vector logic) through its C interface.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::{Duration, Instant};

type Z = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, p: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, complete: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char;
    fn Z3_get_bool_value(c: Z, a: Z) -> c_int;
    fn Z3_set_error_handler(c: Z, h: extern "C" fn(Z, c_int));
    fn Z3_get_error_msg(c: Z, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: Z, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("rsym: z3 error {}: {}", e, m.to_string_lossy());
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: Duration,
    pub max: Duration,
}

pub struct Solver {
    c: Z,
    s: Z,
    bv: HashMap<u32, Z>,
    bo: HashMap<u32, Z>,
    cache: HashMap<Vec<u32>, Res>,
    pub stats: Stats,
    since_reset: u64,
    rlimit: u32,
    pub dump: Option<(String, u64, u64)>, // directory, every n-th unsat query, max count
    dumped: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()) }.to_string_lossy().into_owned()
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                stats: Stats::default(),
                since_reset: 0,
                rlimit,
                dump: None,
                dumped: 0,
            };
            s.fresh();
            s
        }
    }

    /// After fork(2): a private context, empty statistics.
    pub fn forked(&mut self) {
        let d = self.dump.take();
        let c = std::mem::take(&mut self.cache);
        let new = Solver::new(self.rlimit);
        std::mem::forget(std::mem::replace(self, new));
        self.dump = d;
        self.cache = c;
    }

    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.c, sy);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            let ks = Z3_mk_string_symbol(self.c, k.as_ptr());
            Z3_params_set_uint(self.c, p, ks, self.rlimit);
            Z3_solver_set_params(self.c, self.s, p);
            self.since_reset = 0;
        }
    }

    fn keep(&self, a: Z) -> Z {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    fn num(&self, v: u128, w: u16) -> Z {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint))
            } else {
                let lo = self.keep(Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64)));
                let hi = self.keep(Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as c_uint - 64)));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }

    fn to_bv(&mut self, e: Ex) -> Z {
        let n = node(e);
        if n.w == 1 {
            let b = self.to_bool(e);
            let one = self.keep(self.num(1, 1));
            let zero = self.keep(self.num(0, 1));
            return self.keep(unsafe { Z3_mk_ite(self.c, b, one, zero) });
        }
        if let Some(&z) = self.bv.get(&e.0) {
            return z;
        }
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as c_int);
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Ite => {
                    let p = self.to_bool(Ex(n.a));
                    let a = self.to_bv(Ex(n.b));
                    let b = self.to_bv(Ex(n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Concat => {
                    let b = self.to_bv(Ex(n.b));
                    if as_const(Ex(n.a)) == Some(0) {
                        Z3_mk_zero_ext(c, width(Ex(n.a)) as c_uint, b)
                    } else {
                        let a = self.to_bv(Ex(n.a));
                        Z3_mk_concat(c, a, b)
                    }
                }
                Op::Extract => {
                    let a = self.to_bv(Ex(n.a));
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::SExt => {
                    let a = self.to_bv(Ex(n.a));
                    Z3_mk_sign_ext(c, (n.w - width(Ex(n.a))) as c_uint, a)
                }
                _ => {
                    let a = self.to_bv(Ex(n.a));
                    let b = self.to_bv(Ex(n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => panic!("to_bv {:?}", n),
                    }
                }
            }
        };
        self.keep(z);
        self.bv.insert(e.0, z);
        z
    }

    fn to_bool(&mut self, e: Ex) -> Z {
        if let Some(&z) = self.bo.get(&e.0) {
            return z;
        }
        let n = node(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as c_int);
                    Z3_mk_const(c, s, Z3_mk_bool_sort(c))
                }
                Op::And | Op::Or => {
                    let a = [self.to_bool(Ex(n.a)), self.to_bool(Ex(n.b))];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, a.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.to_bool(Ex(n.a));
                    if as_const(Ex(n.b)) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.to_bool(Ex(n.b));
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let p = self.to_bool(Ex(n.a));
                    let a = self.to_bool(Ex(n.b));
                    let b = self.to_bool(Ex(n.c));
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Eq => {
                    if width(Ex(n.a)) == 1 {
                        let a = self.to_bool(Ex(n.a));
                        let b = self.to_bool(Ex(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.to_bv(Ex(n.a));
                        let b = self.to_bv(Ex(n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bv(Ex(n.a));
                    let b = self.to_bv(Ex(n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Extract => {
                    let a = self.to_bv(Ex(n.a));
                    let x = self.keep(Z3_mk_extract(c, n.b, n.b, a));
                    let one = self.keep(self.num(1, 1));
                    Z3_mk_eq(c, x, one)
                }
                _ => panic!("to_bool {:?}", n),
            }
        };
        self.keep(z);
        self.bo.insert(e.0, z);
        z
    }

    pub fn check(&mut self, cs: &[Ex]) -> Res {
        let mut key: Vec<u32> = cs.iter().map(|e| e.0).collect();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        if self.since_reset > 3000 {
            self.fresh();
        }
        self.since_reset += 1;
        self.stats.queries += 1;
        let mut vs: Rc<[u32]> = Rc::new([]);
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in &key {
                let z = self.to_bool(Ex(*e));
                Z3_solver_assert(self.c, self.s, z);
                vs = merge_vars(&vs, &vars(Ex(*e)));
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => {
                    self.stats.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::with_capacity(vs.len());
                    for &v in vs.iter() {
                        let ve = ar().var_nodes[v as usize];
                        let w = width(ve);
                        let z = if w == 1 { self.to_bool(ve) } else { self.to_bv(ve) };
                        let mut r: Z = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, z, true, &mut r);
                        let val = if w == 1 {
                            (Z3_get_bool_value(self.c, r) == 1) as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().unwrap().parse::<u128>().unwrap()
                        };
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => {
                    self.stats.unsat += 1;
                    if let Some((dir, every, max)) = &self.dump {
                        if self.stats.unsat % every == 0 && self.dumped < *max {
                            let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                            let f = format!("{}/q{}_{}.smt2", dir, std::process::id(), self.stats.unsat);
                            let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                            self.dumped += 1;
                        }
                    }
                    Res::Unsat
                }
                _ => {
                    self.stats.unknown += 1;
                    Res::Unknown
                }
            };
            if (t0.elapsed().as_secs() >= 1 || matches!(res, Res::Unknown)) && std::env::var_os("RSYM_SLOW").is_some() {
                let st = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("/tmp/slow/q{}_{}.smt2", std::process::id(), self.stats.queries), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", st));
            }
            Z3_solver_pop(self.c, self.s, 1);
            res
        };
        let dt = t0.elapsed();
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }
}

fn merge_vars(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
    v.sort_unstable();
    v.dedup();
    v.into()
}
