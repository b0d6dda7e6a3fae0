//! Path-forking symbolic executor for the LLVM IR of a harness and everything it calls.

use crate::expr::{self, *};
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

pub const NOSYM: Ex = Ex(u32::MAX);
const HEAP_ID: u64 = 1 << 20;
const STACK_ID: u64 = 1 << 22;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Ex>,
    pub readonly: bool,
}

impl Obj {
    fn new(size: usize) -> Obj {
        Obj { data: vec![0; size], sym: Vec::new(), readonly: false }
    }
}

#[derive(Clone)]
pub struct Mem {
    globals: Rc<Vec<Rc<Obj>>>,
    heap: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    stack: Vec<Rc<Obj>>,
    live_heap: u64,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    stack_base: usize,
    ret_dest: u32,
    ret_bb: Option<u32>, // invoke: jump there after return
}

#[derive(Clone)]
pub enum Ev {
    Cover(u32),
    Observe(u32, Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<Ex>,
    model: Rc<Vec<u128>>,
    inputs: Vec<(u16, Val)>,
    events: Vec<Ev>,
    steps: u64,
    allow_panic: bool,
    nested: bool,
    sym_random: bool,
    depth_forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub location: String,
    pub inputs: Vec<(u16, u64)>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(u16, u64)>,
    pub events: Vec<String>,
    pub panicked: bool,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub panicked_paths: u64,
    pub forks: u64,
    pub steps: u64,
    pub assumed_out: u64,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    pub inconclusive: Vec<String>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<u32, u64>,
    pub samples: Vec<Sample>,
    pub max_depth: usize,
    pub max_pc: usize,
    pub concretized: u64,
    pub fork_sites: HashMap<u32, u64>,
    pub aborted: bool,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_depth: usize,
    pub samples: usize,
    pub deadline: Instant,
    pub params: Vec<u64>,
    pub seed: u64,
    pub max_violations: usize,
    pub profile: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Panic,
    Abort,
    Nop,
    LlvmAssume,
    Ret0,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Getrandom,
    Syscall,
    Errno,
    WriteFd,
    Intr, // llvm.* value intrinsics
    SymInt,
    SymBytes,
    SymChoice,
    SymAssume,
    SymCover,
    SymObserve,
    SymAllowPanic,
    SymNested,
    SymParam,
    SymRandom,
    SymConcretize,
    SymSteps,
    SymIsSym,
    Redirect(usize),
    Unknown,
}

enum Stop {
    PathEnd,
    Panic(String),
    Violation(String, String),
    Infeasible,
    Inconclusive(String),
    Error(String),
}
type X<T> = Result<T, Stop>;

/// Counters shared by the worker processes of one run.
pub struct Pool {
    pub idle: AtomicUsize,
    pub next: AtomicUsize,
    pub stop: AtomicUsize,
}

extern "C" {
    fn fork() -> i32;
}

pub struct Engine<'m> {
    pub pool: Option<&'static Pool>,
    pub worker: usize,
    pub kids: Vec<i32>,
    last_split: Instant,
    pub m: &'m Module,
    pub solver: Solver,
    pub opts: Opts,
    pub rep: Report,
    pub work: Vec<State>,
    pub touched: Vec<u64>,
    pub funcs_called: Vec<bool>,
    builtins: Vec<Option<Bi>>,
    errno: u64,
    rng: u64,
    seen_samples: u64,
    first_violation: Option<Instant>,
}

fn c64(v: &Val) -> Option<u64> {
    match v {
        Val::C(x) => Some(*x as u64),
        _ => None,
    }
}

fn ex(v: &Val, w: u16) -> Ex {
    match v {
        Val::C(x) => konst(*x, w),
        Val::S(e) => {
            debug_assert_eq!(width(*e), w);
            *e
        }
        Val::Agg(_) => panic!("aggregate as scalar"),
    }
}
fn val(e: Ex) -> Val {
    match as_const(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}

fn bin_val(op: BinOp, w: u16, a: &Val, b: &Val) -> X<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = mask(w);
        let o = match op {
            BinOp::Add => return Ok(Val::C(x.wrapping_add(y) & m)),
            BinOp::Sub => return Ok(Val::C(x.wrapping_sub(y) & m)),
            BinOp::And => return Ok(Val::C(x & y)),
            BinOp::Or => return Ok(Val::C(x | y)),
            BinOp::Xor => return Ok(Val::C(x ^ y)),
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        return Ok(Val::C(fold(o, w, x, y)));
    }
    let (x, y) = (ex(a, w), ex(b, w));
    let r = match op {
        BinOp::Add => add(x, y),
        BinOp::Sub => sub(x, y),
        BinOp::Mul => mul(x, y),
        BinOp::UDiv => divrem(Op::UDiv, x, y),
        BinOp::URem => divrem(Op::URem, x, y),
        BinOp::SDiv => divrem(Op::SDiv, x, y),
        BinOp::SRem => divrem(Op::SRem, x, y),
        BinOp::And => and(x, y),
        BinOp::Or => or(x, y),
        BinOp::Xor => xor(x, y),
        BinOp::Shl => shl(x, y),
        BinOp::LShr => lshr(x, y),
        BinOp::AShr => ashr(x, y),
    };
    Ok(val(r))
}

fn icmp_val(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sext128(x, w) < sext128(y, w),
            Pred::Sle => sext128(x, w) <= sext128(y, w),
            Pred::Sgt => sext128(x, w) > sext128(y, w),
            Pred::Sge => sext128(x, w) >= sext128(y, w),
        };
        return Val::C(r as u128);
    }
    let (x, y) = (ex(a, w), ex(b, w));
    val(match p {
        Pred::Eq => eq(x, y),
        Pred::Ne => not(eq(x, y)),
        Pred::Ult => ult(x, y),
        Pred::Ule => ule(x, y),
        Pred::Ugt => ult(y, x),
        Pred::Uge => ule(y, x),
        Pred::Slt => slt(x, y),
        Pred::Sle => sle(x, y),
        Pred::Sgt => slt(y, x),
        Pred::Sge => sle(y, x),
    })
}

fn ite_val(c: Ex, t: &Ty, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Agg(x), Val::Agg(y)) => {
            Val::Agg(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| ite_val(c, &t.field(i), p, q)).collect()))
        }
        _ => {
            let w = t.width();
            val(ite(c, ex(a, w), ex(b, w)))
        }
    }
}

fn get_path(v: &Val, ix: &[u32]) -> Val {
    let mut cur = v;
    for i in ix {
        match cur {
            Val::Agg(x) => cur = &x[*i as usize],
            _ => panic!("extractvalue of scalar"),
        }
    }
    cur.clone()
}
fn set_path(v: &Val, ix: &[u32], n: Val) -> Val {
    if ix.is_empty() {
        return n;
    }
    match v {
        Val::Agg(x) => {
            let mut y = (**x).clone();
            y[ix[0] as usize] = set_path(&x[ix[0] as usize], &ix[1..], n);
            Val::Agg(Rc::new(y))
        }
        _ => panic!("insertvalue into scalar"),
    }
}

fn cast_scalar(c: CastOp, from: u16, v: &Val, to: u16) -> Val {
    match v {
        Val::C(x) => match c {
            CastOp::SExt => Val::C((sext128(*x, from) as u128) & mask(to)),
            _ => Val::C(x & mask(to)),
        },
        Val::S(e) => val(match c {
            CastOp::Trunc => extract(*e, 0, to),
            CastOp::ZExt => zext(*e, to),
            CastOp::SExt => sext(*e, to),
            CastOp::BitCast | CastOp::PtrInt => {
                if to < from {
                    extract(*e, 0, to)
                } else {
                    zext(*e, to)
                }
            }
        }),
        Val::Agg(_) => panic!("cast of aggregate"),
    }
}

impl Mem {
    fn obj(&self, addr: u64) -> Option<(&Obj, usize)> {
        let id = addr >> SLOT_SHIFT;
        let off = (addr & ((1 << SLOT_SHIFT) - 1)).wrapping_sub(SLOT_OFF) as usize;
        let o = if id >= STACK_ID {
            self.stack.get((id - STACK_ID) as usize)?
        } else if id >= HEAP_ID {
            self.heap.get((id - HEAP_ID) as usize)?.as_ref()?
        } else if id >= 1 {
            self.globals.get(id as usize - 1)?
        } else {
            return None;
        };
        Some((o, off))
    }
    fn obj_mut(&mut self, addr: u64) -> Option<(&mut Obj, usize)> {
        let id = addr >> SLOT_SHIFT;
        let off = (addr & ((1 << SLOT_SHIFT) - 1)).wrapping_sub(SLOT_OFF) as usize;
        let o = if id >= STACK_ID {
            self.stack.get_mut((id - STACK_ID) as usize)?
        } else if id >= HEAP_ID {
            self.heap.get_mut((id - HEAP_ID) as usize)?.as_mut()?
        } else if id >= 1 {
            Rc::make_mut(&mut self.globals).get_mut(id as usize - 1)?
        } else {
            return None;
        };
        Some((Rc::make_mut(o), off))
    }
    fn alloc_stack(&mut self, size: u64) -> u64 {
        let id = STACK_ID + self.stack.len() as u64;
        self.stack.push(Rc::new(Obj::new(size as usize)));
        (id << SLOT_SHIFT) + SLOT_OFF
    }
    fn alloc_heap(&mut self, size: u64) -> u64 {
        let i = if self.free.len() > 64 {
            let i = self.free.remove(0);
            self.heap[i as usize] = Some(Rc::new(Obj::new(size as usize)));
            i as u64
        } else {
            self.heap.push(Some(Rc::new(Obj::new(size as usize))));
            self.heap.len() as u64 - 1
        };
        self.live_heap += 1;
        ((HEAP_ID + i) << SLOT_SHIFT) + SLOT_OFF
    }
    fn load_bytes(&self, addr: u64, n: usize) -> Option<Vec<Val>> {
        let (o, off) = self.obj(addr)?;
        if off > o.data.len() || n > o.data.len() - off {
            return None;
        }
        Some(
            (off..off + n)
                .map(|i| if !o.sym.is_empty() && o.sym[i] != NOSYM { Val::S(o.sym[i]) } else { Val::C(o.data[i] as u128) })
                .collect(),
        )
    }
}

fn mem_err<T>(what: &str, addr: u64, n: usize) -> X<T> {
    Err(Stop::Violation("memory".into(), format!("invalid {} of {} bytes at {:#x}", what, n, addr)))
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, solver: Solver, opts: Opts) -> Engine<'m> {
        let nf = m.funcs.len();
        let seed = opts.seed;
        Engine {
            pool: None,
            worker: 0,
            kids: Vec::new(),
            last_split: Instant::now(),
            m,
            solver,
            opts,
            rep: Report::default(),
            work: Vec::new(),
            touched: Vec::new(),
            funcs_called: vec![false; nf],
            builtins: vec![None; nf],
            errno: 0,
            rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
            seen_samples: 0,
            first_violation: None,
        }
    }

    pub fn start(&mut self, harness: &str) -> Result<(), String> {
        let id = *self.m.func_by_name.get(harness).ok_or(format!("no function {}", harness))?;
        let globals: Vec<Rc<Obj>> = self
            .m
            .globals
            .iter()
            .map(|g| Rc::new(Obj { data: g.data.clone(), sym: Vec::new(), readonly: g.constant }))
            .collect();
        let mut mem = Mem { globals: Rc::new(globals), heap: Vec::new(), free: Vec::new(), stack: Vec::new(), live_heap: 0 };
        self.errno = mem.alloc_heap(4);
        let f = self.m.func(id)?;
        let fr = Frame { regs: vec![Val::C(0); f.nregs], f, bb: 0, ip: 0, stack_base: 0, ret_dest: NODEST, ret_bb: None };
        self.funcs_called[id] = true;
        self.work.push(State {
            frames: vec![Rc::new(fr)],
            mem,
            pc: Vec::new(),
            model: Rc::new(Vec::new()),
            inputs: Vec::new(),
            events: Vec::new(),
            steps: 0,
            allow_panic: false,
            nested: false,
            sym_random: false,
            depth_forks: 0,
        });
        Ok(())
    }

    // ---------------------------------------------------------------- constraints

    fn query(&mut self, st: &State, c: Ex) -> Res {
        match as_const(c) {
            Some(1) => return Res::Sat(Rc::new(Vec::new())),
            Some(_) => return Res::Unsat,
            None => {}
        }
        let mut set: Vec<Ex> = vec![c];
        let nv = ar().var_nodes.len();
        let mut invs = vec![false; nv];
        for v in vars(c).iter() {
            invs[*v as usize] = true;
        }
        let mut left: Vec<(Ex, Rc<[u32]>)> = st.pc.iter().map(|e| (*e, vars(*e))).collect();
        loop {
            let before = set.len();
            left.retain(|(e, vs)| {
                if vs.iter().any(|v| invs[*v as usize]) {
                    set.push(*e);
                    for v in vs.iter() {
                        invs[*v as usize] = true;
                    }
                    false
                } else {
                    true
                }
            });
            if set.len() == before {
                break;
            }
        }
        self.solver.check(&set)
    }

    fn overlay(st: &State, m: &[(u32, u128)]) -> Rc<Vec<u128>> {
        let mut v = (*st.model).clone();
        for (i, x) in m {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *x;
        }
        Rc::new(v)
    }

    /// Splits on `c`: the current state takes the side its model satisfies; if the other side is
    /// feasible, a copy of `st` for it is returned (constraint and model already adjusted).
    fn split(&mut self, st: &mut State, c: Ex) -> X<(bool, Option<State>)> {
        let side = eval(c, &st.model) == 1;
        let other = if side { not(c) } else { c };
        let r = self.query(st, other);
        let o = match r {
            Res::Unsat => None,
            Res::Unknown => return Err(Stop::Inconclusive("solver gave up on a branch condition".into())),
            Res::Sat(m) => {
                let mut s2 = st.clone();
                s2.model = Self::overlay(st, &m);
                s2.pc.push(other);
                s2.depth_forks += 1;
                debug_assert!(eval(other, &s2.model) == 1);
                Some(s2)
            }
        };
        if o.is_some() {
            st.pc.push(if side { c } else { not(c) });
            st.depth_forks += 1;
            self.rep.forks += 1;
            if self.opts.profile {
                let d = self.cur_dbg(st);
                *self.rep.fork_sites.entry(d).or_insert(0) += 1;
            }
        }
        Ok((side, o))
    }

    fn cur_dbg(&self, st: &State) -> u32 {
        let f = st.frames.last().unwrap();
        let b = &f.f.blocks[f.bb as usize].insts;
        b.get(f.ip as usize).map(|i| i.dbg).unwrap_or(0)
    }

    /// Makes `v` concrete; other feasible values are explored by re-executing the current
    /// instruction in a copy of the state.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> X<u128> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => {
                let x = eval(*e, &st.model);
                let c = eq(*e, konst(x, w));
                if as_const(c) == Some(1) {
                    return Ok(x);
                }
                let (_, o) = self.split(st, c)?;
                if let Some(s2) = o {
                    self.rep.concretized += 1;
                    self.work.push(s2);
                }
                Ok(x)
            }
            Val::Agg(_) => Err(Stop::Error("concretize aggregate".into())),
        }
    }

    // ---------------------------------------------------------------- memory

    fn load_scalar(&mut self, st: &State, addr: u64, n: usize, w: u16) -> X<Val> {
        let (o, off) = match st.mem.obj(addr) {
            Some(x) => x,
            None => return mem_err("read", addr, n),
        };
        if off > o.data.len() || n > o.data.len() - off {
            return mem_err("read", addr, n);
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == NOSYM) {
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | o.data[off + i] as u128;
            }
            return Ok(Val::C(x & mask(w)));
        }
        let byte = |i: usize| if o.sym[off + i] != NOSYM { o.sym[off + i] } else { konst(o.data[off + i] as u128, 8) };
        let mut e = byte(0);
        for i in 1..n {
            e = concat(byte(i), e);
        }
        if width(e) > w {
            e = extract(e, 0, w);
        }
        Ok(val(e))
    }

    fn load(&mut self, st: &mut State, t: &Ty, addr: u64) -> X<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.load_scalar(st, addr, t.store_size() as usize, t.width()),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vector(..) => {
                if let Ty::Vector(n, e) = t {
                    if let Ty::Int(1) = **e {
                        let v = self.load_scalar(st, addr, t.store_size() as usize, *n as u16)?;
                        return Ok(Val::Agg(Rc::new(
                            (0..*n as u16)
                                .map(|i| match &v {
                                    Val::C(x) => Val::C(x >> i & 1),
                                    v => val(extract(ex(v, *n as u16), i, 1)),
                                })
                                .collect(),
                        )));
                    }
                }
                let mut r = Vec::with_capacity(t.count());
                for i in 0..t.count() {
                    r.push(self.load(st, &t.field(i), addr + t.field_offset(i))?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => Err(Stop::Error(format!("load of {:?}", t))),
        }
    }

    fn store(&mut self, st: &mut State, t: &Ty, v: &Val, addr: u64) -> X<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = t.store_size() as usize;
                let (o, off) = match st.mem.obj_mut(addr) {
                    Some(x) => x,
                    None => return mem_err("write", addr, n),
                };
                if off > o.data.len() || n > o.data.len() - off || o.readonly {
                    return mem_err("write", addr, n);
                }
                match v {
                    Val::C(x) => {
                        for i in 0..n {
                            o.data[off + i] = if i < 16 { (x >> (8 * i)) as u8 } else { 0 };
                        }
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym[off + i] = NOSYM;
                            }
                        }
                    }
                    Val::S(e) => {
                        if o.sym.is_empty() {
                            o.sym = vec![NOSYM; o.data.len()];
                        }
                        let w8 = (n * 8) as u16;
                        let e = zext(*e, w8);
                        for i in 0..n {
                            let b = extract(e, (i * 8) as u16, 8);
                            match as_const(b) {
                                Some(c) => {
                                    o.data[off + i] = c as u8;
                                    o.sym[off + i] = NOSYM;
                                }
                                None => o.sym[off + i] = b,
                            }
                        }
                    }
                    Val::Agg(_) => return Err(Stop::Error("store aggregate as scalar".into())),
                }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let xs = match v {
                    Val::Agg(x) => x.clone(),
                    _ => return Err(Stop::Error("store scalar as aggregate".into())),
                };
                if let Ty::Vector(n, e) = t {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            return Err(Stop::Error(format!("store of <{} x i{}>", n, w)));
                        }
                    }
                }
                for (i, x) in xs.iter().enumerate() {
                    self.store(st, &t.field(i), x, addr + t.field_offset(i))?;
                }
                Ok(())
            }
            _ => Err(Stop::Error(format!("store of {:?}", t))),
        }
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> X<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (data, sym) = {
            let (o, off) = match st.mem.obj(src) {
                Some(x) => x,
                None => return mem_err("read", src, n),
            };
            if off > o.data.len() || n > o.data.len() - off {
                return mem_err("read", src, n);
            }
            let sym = if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == NOSYM) {
                Vec::new()
            } else {
                o.sym[off..off + n].to_vec()
            };
            (o.data[off..off + n].to_vec(), sym)
        };
        let (o, off) = match st.mem.obj_mut(dst) {
            Some(x) => x,
            None => return mem_err("write", dst, n),
        };
        if off > o.data.len() || n > o.data.len() - off || o.readonly {
            return mem_err("write", dst, n);
        }
        o.data[off..off + n].copy_from_slice(&data);
        if sym.is_empty() {
            if !o.sym.is_empty() {
                o.sym[off..off + n].fill(NOSYM);
            }
        } else {
            if o.sym.is_empty() {
                o.sym = vec![NOSYM; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        }
        Ok(())
    }

    fn fill(&mut self, st: &mut State, dst: u64, v: &Val, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = match st.mem.obj_mut(dst) {
            Some(x) => x,
            None => return mem_err("write", dst, n),
        };
        if off > o.data.len() || n > o.data.len() - off || o.readonly {
            return mem_err("write", dst, n);
        }
        match v {
            Val::C(x) => {
                o.data[off..off + n].fill(*x as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(NOSYM);
                }
            }
            Val::S(e) => {
                if o.sym.is_empty() {
                    o.sym = vec![NOSYM; o.data.len()];
                }
                o.sym[off..off + n].fill(*e);
            }
            _ => return Err(Stop::Error("memset aggregate".into())),
        }
        Ok(())
    }

    fn put_bytes(&mut self, st: &mut State, dst: u64, b: &[u8]) -> X<()> {
        for (i, x) in b.iter().enumerate() {
            self.store(st, &Ty::Int(8), &Val::C(*x as u128), dst + i as u64)?;
        }
        Ok(())
    }

    /// Read through a symbolic address as a decision tree when it stays inside one constant object.
    fn mux_load(&mut self, st: &mut State, t: &Ty, a: Ex) -> X<Option<Val>> {
        if !t.is_scalar() {
            return Ok(None);
        }
        let n = t.store_size();
        let at = eval(a, &st.model) as u64;
        let (base, len) = match st.mem.obj(at) {
            Some((o, off)) if off < o.data.len() && o.data.len() <= 4096 && o.sym.is_empty() && (o.readonly || o.data.len() <= 64) => {
                (at - off as u64, o.data.len() as u64)
            }
            _ => return Ok(None),
        };
        if n > len {
            return Ok(None);
        }
        let rel = sub(a, konst(base as u128, 64));
        let inb = ule(rel, konst((len - n) as u128, 64));
        match self.query(st, not(inb)) {
            Res::Unsat => {}
            _ => return Ok(None),
        }
        let w = t.width();
        let mut vals = Vec::new();
        for i in 0..=(len - n) {
            match self.load_scalar(st, base + i, n as usize, w)? {
                Val::C(x) => vals.push(x),
                _ => return Ok(None),
            }
        }
        // only offsets that are multiples of the low zero bits of `rel` can occur
        let mut step = 1usize;
        while step < 16 {
            let k = (step * 2).trailing_zeros() as u16;
            if as_const(extract(rel, 0, k)) == Some(0) {
                step *= 2;
            } else {
                break;
            }
        }
        let keys: Vec<(u64, u128)> = (0..vals.len()).step_by(step).map(|i| (i as u64, vals[i])).collect();
        // narrow the index to the bits that can be set
        let bits = 64 - (len - n).leading_zeros() as u16;
        let idx = if bits == 0 { konst(0, 1) } else { extract(rel, 0, bits.max(1)) };
        fn tree(idx: Ex, keys: &[(u64, u128)], w: u16) -> Ex {
            if keys.iter().all(|k| k.1 == keys[0].1) {
                return konst(keys[0].1, w);
            }
            let mid = keys.len() / 2;
            let c = ult(idx, konst(keys[mid].0 as u128, width(idx)));
            ite(c, tree(idx, &keys[..mid], w), tree(idx, &keys[mid..], w))
        }
        Ok(Some(val(tree(idx, &keys, w))))
    }

    // ---------------------------------------------------------------- driver

    fn inputs_of(st: &State) -> Vec<(u16, u64)> {
        st.inputs
            .iter()
            .map(|(w, v)| match v {
                Val::C(x) => (*w, *x as u64),
                Val::S(e) => (*w, eval(*e, &st.model) as u64),
                _ => (*w, 0),
            })
            .collect()
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect()
    }

    fn sample(&mut self, st: &State, panicked: bool) {
        self.seen_samples += 1;
        let cap = self.opts.samples;
        if cap == 0 {
            return;
        }
        let slot = if self.rep.samples.len() < cap {
            self.rep.samples.len()
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let r = (self.rng % self.seen_samples) as usize;
            if r >= cap {
                return;
            }
            r
        };
        let mut events = Vec::new();
        for e in &st.events {
            match e {
                Ev::Cover(c) => events.push(format!("c{}", c)),
                Ev::Observe(t, bs) => {
                    let mut s = format!("o{}:", t);
                    for b in bs.iter() {
                        let x = match b {
                            Val::C(x) => *x,
                            Val::S(e) => eval(*e, &st.model),
                            _ => 0,
                        };
                        s.push_str(&format!("{:02x}", x));
                    }
                    events.push(s);
                }
            }
        }
        let s = Sample { inputs: Self::inputs_of(st), events, panicked };
        if slot < self.rep.samples.len() {
            self.rep.samples[slot] = s;
        } else {
            self.rep.samples.push(s);
        }
    }

    /// Runs until the work list is empty, holds at least `until` states, or the deadline passes.
    /// With `breadth` the oldest state is taken first.
    pub fn run(&mut self) {
        loop {
            self.share();
            let Some(st) = self.work.pop() else { break };
            self.run_state(st);
            let late = Instant::now() > self.opts.deadline;
            if late && !self.work.is_empty() {
                self.rep.inconclusive.push("time limit".into());
                self.work.clear();
            }
            if let Some(t) = self.first_violation {
                if (t.elapsed().as_secs() > 20 || self.rep.violations.len() >= self.opts.max_violations) && !self.work.is_empty() {
                    self.rep.aborted = true;
                    self.work.clear();
                }
            }
            if !self.rep.errors.is_empty() {
                self.work.clear();
            }
            if let Some(p) = self.pool {
                if self.rep.aborted || !self.rep.errors.is_empty() {
                    p.stop.store(1, SeqCst);
                } else if p.stop.load(SeqCst) != 0 && !self.work.is_empty() {
                    self.rep.aborted = true;
                    self.work.clear();
                }
            }
        }
    }

    fn share(&mut self) {
        let Some(p) = self.pool else { return };
        if self.work.len() < 2 || p.idle.load(SeqCst) == 0 || self.last_split.elapsed().as_millis() < 20 {
            return;
        }
        if p.idle.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_err() {
            return;
        }
        self.last_split = Instant::now();
        let id = p.next.fetch_add(1, SeqCst) + 1;
        let half = self.work.len() / 2;
        match unsafe { fork() } {
            -1 => self.rep.errors.push("fork failed".into()),
            0 => {
                self.work.truncate(half);
                self.worker = id;
                self.kids.clear();
                self.solver.forked();
                self.rep = Report::default();
                self.opts.seed = self.opts.seed.wrapping_add(id as u64);
            }
            k => {
                self.work.drain(..half);
                self.kids.push(k);
            }
        }
    }

    fn run_state(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
            if st.steps > self.opts.max_steps {
                break Stop::Violation("steps".into(), format!("more than {} instructions on one path", self.opts.max_steps));
            }
            if st.steps & 0xffff == 0 && Instant::now() > self.opts.deadline {
                break Stop::Inconclusive("time limit".into());
            }
        };
        self.rep.max_pc = self.rep.max_pc.max(st.pc.len());
        match r {
            Stop::PathEnd => {
                self.rep.paths += 1;
                self.finish_events(&st);
                self.sample(&st, false);
            }
            Stop::Infeasible => self.rep.assumed_out += 1,
            Stop::Panic(loc) => {
                if st.allow_panic {
                    self.rep.paths += 1;
                    self.rep.panicked_paths += 1;
                    self.finish_events(&st);
                    self.sample(&st, true);
                } else {
                    self.violate(&st, "panic".into(), loc);
                }
            }
            Stop::Violation(k, l) => self.violate(&st, k, l),
            Stop::Inconclusive(s) => {
                if self.rep.inconclusive.len() < 50 {
                    self.rep.inconclusive.push(s);
                }
            }
            Stop::Error(s) => {
                let bt = self.backtrace(&st);
                self.rep.errors.push(format!("{} at {:?}", s, bt));
            }
        }
    }

    fn finish_events(&mut self, st: &State) {
        for e in &st.events {
            if let Ev::Cover(c) = e {
                *self.rep.covers.entry(*c).or_insert(0) += 1;
            }
        }
    }

    fn violate(&mut self, st: &State, kind: String, location: String) {
        self.rep.paths += 1;
        self.rep.violation_count += 1;
        if self.first_violation.is_none() {
            self.first_violation = Some(Instant::now());
        }
        let same = self.rep.violations.iter().filter(|v| v.kind == kind && v.location == location).count();
        if same < 4 {
            let v = Violation { kind, location, inputs: Self::inputs_of(st), trace: self.backtrace(st) };
            self.rep.violations.push(v);
        }
    }

    #[inline]
    fn op(fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }

    fn jump(fr: &mut Frame, to: u32) {
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        let mut n = 0;
        let mut tmp: Vec<(u32, Val)> = Vec::new();
        for i in &b.insts {
            if let Ins::Phi(_, inc) = &i.ins {
                let (_, o) = inc.iter().find(|(l, _)| *l == from).expect("phi edge");
                tmp.push((i.dest, Self::op(fr, o)));
                n += 1;
            } else {
                break;
            }
        }
        for (d, v) in tmp {
            fr.regs[d as usize] = v;
        }
        fr.bb = to;
        fr.ip = n;
    }

    fn set_and_advance(st: &mut State, dest: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dest != NODEST {
            fr.regs[dest as usize] = v;
        }
        fr.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        self.rep.steps += 1;
        let func = st.frames.last().unwrap().f.clone();
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let inst = &func.blocks[fr.bb as usize].insts[fr.ip as usize];
        if inst.dbg != 0 {
            let (w, b) = ((inst.dbg / 64) as usize, inst.dbg % 64);
            if self.touched.len() <= w {
                self.touched.resize(w + 64, 0);
            }
            self.touched[w] |= 1 << b;
        }
        match &inst.ins {
            Ins::Bin(op, t, a, b) => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = match t {
                    Ty::Int(w) => {
                        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                            if let Val::C(0) = y {
                                return Err(Stop::Violation("division".into(), "division by zero".into()));
                            }
                        }
                        bin_val(*op, *w, &x, &y)?
                    }
                    Ty::Vector(_, e) => match (&x, &y) {
                        (Val::Agg(p), Val::Agg(q)) => {
                            let w = e.width();
                            let mut r = Vec::with_capacity(p.len());
                            for (i, j) in p.iter().zip(q.iter()) {
                                r.push(bin_val(*op, w, i, j)?);
                            }
                            Val::Agg(Rc::new(r))
                        }
                        _ => return Err(Stop::Error("vector op".into())),
                    },
                    _ => return Err(Stop::Error(format!("binop on {:?}", t))),
                };
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Icmp(p, t, a, b) => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = match (t, &x, &y) {
                    (Ty::Vector(_, e), Val::Agg(u), Val::Agg(v)) => {
                        let w = e.width();
                        Val::Agg(Rc::new(u.iter().zip(v.iter()).map(|(i, j)| icmp_val(*p, w, i, j)).collect()))
                    }
                    _ => icmp_val(*p, t.width(), &x, &y),
                };
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Cast(c, from, a, to) => {
                let x = Self::op(fr, a);
                let r = self_cast(*c, from, &x, to)?;
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Alloca(size, _align) => {
                let a = st.mem.alloc_stack(*size);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[inst.dest as usize] = Val::C(a as u128);
                fr.ip += 1;
            }
            Ins::Load(t, p) => {
                let pv = Self::op(fr, p);
                let r = match &pv {
                    Val::C(a) => self.load(st, t, *a as u64)?,
                    Val::S(e) => match self.mux_load(st, t, *e)? {
                        Some(v) => v,
                        None => {
                            let a = self.concretize(st, &pv, 64)?;
                            self.load(st, t, a as u64)?
                        }
                    },
                    _ => return Err(Stop::Error("address".into())),
                };
                Self::set_and_advance(st, inst.dest, r);
            }
            Ins::Store(t, v, p) => {
                let vv = Self::op(fr, v);
                let pv = Self::op(fr, p);
                let a = match &pv {
                    Val::C(a) => *a as u64,
                    _ => self.concretize(st, &pv, 64)? as u64,
                };
                self.store(st, t, &vv, a)?;
                Self::set_and_advance(st, NODEST, Val::C(0));
            }
            Ins::Gep(base, off, dynv) => {
                let mut r = bin_val(BinOp::Add, 64, &Self::op(fr, base), &Val::C(*off as u128))?;
                for (w, o, scale) in dynv {
                    let mut i = Self::op(fr, o);
                    if *w < 64 {
                        i = cast_scalar(CastOp::SExt, *w, &i, 64);
                    }
                    let s = bin_val(BinOp::Mul, 64, &i, &Val::C(*scale as u128))?;
                    r = bin_val(BinOp::Add, 64, &r, &s)?;
                }
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Phi(..) => return Err(Stop::Error("phi in block body".into())),
            Ins::Select(t, c, a, b, vec) => {
                let cv = Self::op(fr, c);
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = if *vec {
                    match (&cv, &x, &y) {
                        (Val::Agg(cs), Val::Agg(xs), Val::Agg(ys)) => Val::Agg(Rc::new(
                            (0..cs.len())
                                .map(|i| match &cs[i] {
                                    Val::C(0) => ys[i].clone(),
                                    Val::C(_) => xs[i].clone(),
                                    Val::S(e) => ite_val(*e, &t.field(i), &xs[i], &ys[i]),
                                    _ => panic!(),
                                })
                                .collect(),
                        )),
                        _ => return Err(Stop::Error("vector select".into())),
                    }
                } else {
                    match cv {
                        Val::C(0) => y,
                        Val::C(_) => x,
                        Val::S(e) => {
                            // a choice between different pointers is decided by forking
                            if *t == Ty::Ptr {
                                if let (Some(p), Some(q)) = (c64(&x), c64(&y)) {
                                    if p >> SLOT_SHIFT != q >> SLOT_SHIFT {
                                        let k = self.concretize(st, &Val::S(e), 1)?;
                                        let v = if k == 1 { x } else { y };
                                        Self::set_and_advance(st, inst.dest, v);
                                        return Ok(());
                                    }
                                }
                            }
                            ite_val(e, t, &x, &y)
                        }
                        _ => return Err(Stop::Error("select".into())),
                    }
                };
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::ExtractValue(a, ix) => {
                let r = get_path(&Self::op(fr, a), ix);
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::InsertValue(_, a, v, ix) => {
                let r = set_path(&Self::op(fr, a), ix, Self::op(fr, v));
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::ExtractElement(a, i) => {
                let (x, i) = (Self::op(fr, a), Self::op(fr, i));
                let r = match (&x, c64(&i)) {
                    (Val::Agg(v), Some(i)) => v[i as usize].clone(),
                    _ => return Err(Stop::Error("extractelement".into())),
                };
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::InsertElement(_, a, v, i) => {
                let i = match c64(&Self::op(fr, i)) {
                    Some(i) => i as u32,
                    None => return Err(Stop::Error("insertelement".into())),
                };
                let r = set_path(&Self::op(fr, a), &[i], Self::op(fr, v));
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Shuffle(a, b, idx, n) => {
                let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                let r = match (&x, &y) {
                    (Val::Agg(u), Val::Agg(v)) => Val::Agg(Rc::new(
                        idx.iter().map(|&i| if i < *n { u[i as usize].clone() } else { v[(i - n) as usize].clone() }).collect(),
                    )),
                    _ => return Err(Stop::Error("shuffle".into())),
                };
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Freeze(a) => {
                let r = Self::op(fr, a);
                fr.regs[inst.dest as usize] = r;
                fr.ip += 1;
            }
            Ins::Rmw(o, t, p, v) => {
                let (pv, vv) = (Self::op(fr, p), Self::op(fr, v));
                let a = self.concretize(st, &pv, 64)? as u64;
                let old = self.load(st, t, a)?;
                let w = t.width();
                let new = match o {
                    RmwOp::Xchg => vv,
                    RmwOp::Add => bin_val(BinOp::Add, w, &old, &vv)?,
                    RmwOp::Sub => bin_val(BinOp::Sub, w, &old, &vv)?,
                    RmwOp::And => bin_val(BinOp::And, w, &old, &vv)?,
                    RmwOp::Or => bin_val(BinOp::Or, w, &old, &vv)?,
                    RmwOp::Xor => bin_val(BinOp::Xor, w, &old, &vv)?,
                    RmwOp::Umax | RmwOp::Umin => {
                        let c = icmp_val(Pred::Ult, w, &old, &vv);
                        let (hi, lo) = match c {
                            Val::C(1) => (vv.clone(), old.clone()),
                            Val::C(_) => (old.clone(), vv.clone()),
                            Val::S(e) => (ite_val(e, t, &vv, &old), ite_val(e, t, &old, &vv)),
                            _ => panic!(),
                        };
                        if *o == RmwOp::Umax {
                            hi
                        } else {
                            lo
                        }
                    }
                };
                self.store(st, t, &new, a)?;
                Self::set_and_advance(st, inst.dest, old);
            }
            Ins::CmpXchg(t, p, c, n) => {
                let (pv, cv, nv) = (Self::op(fr, p), Self::op(fr, c), Self::op(fr, n));
                let a = self.concretize(st, &pv, 64)? as u64;
                let old = self.load(st, t, a)?;
                let same = icmp_val(Pred::Eq, t.width(), &old, &cv);
                let same = self.concretize(st, &same, 1)?;
                if same == 1 {
                    self.store(st, t, &nv, a)?;
                }
                let r = Val::Agg(Rc::new(vec![old, Val::C(same)]));
                Self::set_and_advance(st, inst.dest, r);
            }
            Ins::Fence => fr.ip += 1,
            Ins::Br(l) => Self::jump(fr, *l),
            Ins::CondBr(c, a, b) => match Self::op(fr, c) {
                Val::C(0) => Self::jump(fr, *b),
                Val::C(_) => Self::jump(fr, *a),
                Val::S(e) => {
                    let (a, b) = (*a, *b);
                    if a == b {
                        Self::jump(fr, a);
                        return Ok(());
                    }
                    let (side, o) = self.split(st, e)?;
                    if let Some(mut s2) = o {
                        let fr2 = Rc::make_mut(s2.frames.last_mut().unwrap());
                        Self::jump(fr2, if side { b } else { a });
                        self.work.push(s2);
                    }
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    Self::jump(fr, if side { a } else { b });
                }
                _ => return Err(Stop::Error("br on aggregate".into())),
            },
            Ins::Switch(t, v, d, cases) => match Self::op(fr, v) {
                Val::C(x) => {
                    let l = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*d);
                    Self::jump(fr, l)
                }
                Val::S(e) => {
                    let w = t.width();
                    // one condition per distinct target
                    let mut targets: Vec<(u32, Ex)> = Vec::new();
                    let mut any = konst(0, 1);
                    for (k, l) in cases {
                        let c = eq(e, konst(*k, w));
                        any = or(any, c);
                        if *l == *d {
                            continue;
                        }
                        match targets.iter_mut().find(|t| t.0 == *l) {
                            Some(t) => t.1 = or(t.1, c),
                            None => targets.push((*l, c)),
                        }
                    }
                    let mut dc = not(any);
                    for (k, l) in cases {
                        if *l == *d {
                            dc = or(dc, eq(e, konst(*k, w)));
                        }
                    }
                    targets.push((*d, dc));
                    let mut mine = None;
                    let mut others = Vec::new();
                    for (l, c) in &targets {
                        if mine.is_none() && eval(*c, &st.model) == 1 {
                            mine = Some((*l, *c));
                        } else if as_const(*c) != Some(0) {
                            match self.query(st, *c) {
                                Res::Unsat => {}
                                Res::Unknown => return Err(Stop::Inconclusive("solver gave up on a switch".into())),
                                Res::Sat(m) => {
                                    let mut s2 = st.clone();
                                    s2.model = Self::overlay(st, &m);
                                    s2.pc.push(*c);
                                    others.push((*l, s2));
                                }
                            }
                        }
                    }
                    let (l, c) = mine.ok_or(Stop::Error("switch model".into()))?;
                    if !others.is_empty() {
                        self.rep.forks += others.len() as u64;
                        if self.opts.profile {
                            let d = self.cur_dbg(st);
                            *self.rep.fork_sites.entry(d).or_insert(0) += others.len() as u64;
                        }
                        st.pc.push(c);
                    }
                    for (l2, mut s2) in others {
                        Self::jump(Rc::make_mut(s2.frames.last_mut().unwrap()), l2);
                        self.work.push(s2);
                    }
                    Self::jump(Rc::make_mut(st.frames.last_mut().unwrap()), l);
                }
                _ => return Err(Stop::Error("switch on aggregate".into())),
            },
            Ins::Ret(v) => {
                let v = v.as_ref().map(|v| Self::op(fr, v));
                let (base, dest, rbb) = (fr.stack_base, fr.ret_dest, fr.ret_bb);
                st.mem.stack.truncate(base);
                st.frames.pop();
                if st.frames.is_empty() {
                    return Err(Stop::PathEnd);
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let (true, Some(v)) = (dest != NODEST, v) {
                    fr.regs[dest as usize] = v;
                }
                match rbb {
                    Some(l) => Self::jump(fr, l),
                    None => fr.ip += 1,
                }
            }
            Ins::Unreachable => return Err(Stop::Violation("unreachable".into(), "reached code marked unreachable".into())),
            Ins::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {}", s))),
            Ins::Call(c) => {
                let fid = match &c.callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let p = Self::op(fr, o);
                        let a = self.concretize(st, &p, 64)? as u64;
                        if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                            return Err(Stop::Violation("memory".into(), format!("call through bad pointer {:#x}", a)));
                        }
                        ((a - FUNC_BASE) / 16) as usize
                    }
                };
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                let args: Vec<Val> = c.args.iter().map(|(_, o)| Self::op(fr, o)).collect();
                let bi = match self.builtins[fid] {
                    Some(b) => b,
                    None => {
                        let b = self.classify(fid);
                        self.builtins[fid] = Some(b);
                        b
                    }
                };
                let target = match bi {
                    Bi::None => Some(fid),
                    Bi::Redirect(i) => Some(i),
                    _ => None,
                };
                if let Some(fid) = target {
                    self.funcs_called[fid] = true;
                    let f = self.m.func(fid).map_err(Stop::Error)?;
                    if st.frames.len() >= self.opts.max_depth {
                        return Err(Stop::Violation("depth".into(), format!("more than {} nested calls", self.opts.max_depth)));
                    }
                    self.rep.max_depth = self.rep.max_depth.max(st.frames.len() + 1);
                    let mut regs = vec![Val::C(0); f.nregs];
                    for (p, a) in f.params.iter().zip(args) {
                        regs[*p as usize] = a;
                    }
                    let nf = Frame { f, bb: 0, ip: 0, regs, stack_base: st.mem.stack.len(), ret_dest: inst.dest, ret_bb: c.normal };
                    st.frames.push(Rc::new(nf));
                } else {
                    let r = self.builtin(st, fid, bi, c, &args)?;
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    if inst.dest != NODEST {
                        fr.regs[inst.dest as usize] = r;
                    }
                    match c.normal {
                        Some(l) => Self::jump(fr, l),
                        None => fr.ip += 1,
                    }
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- builtins

    fn classify(&self, fid: usize) -> Bi {
        let d = &self.m.funcs[fid];
        let n = d.name.as_str();
        if d.defined {
            if n.contains("4core9panicking") && !n.contains("AssertKind") || n.contains("rust_begin_unwind") || n.contains("20rust_panic_with_hook") || n.contains("18handle_alloc_error") || n.contains("3std9panicking11begin_panic") {
                // assert_failed and friends receive formatted arguments, the location is the last pointer
                return Bi::Panic;
            }
            if n.contains("3std7process5abort") || n.contains("3sys14abort_internal") || n.contains("3std3sys4exit") {
                return Bi::Abort;
            }
            return Bi::None;
        }
        if let Some(&i) = self.m.func_by_name.get(&format!("vt6_model_{}", n)) {
            if self.m.funcs[i].defined {
                return Bi::Redirect(i);
            }
        }
        match n {
            "malloc" => Bi::Malloc,
            "calloc" => Bi::Calloc,
            "realloc" => Bi::Realloc,
            "free" => Bi::Free,
            "posix_memalign" => Bi::Memalign,
            "memcpy" | "memmove" => Bi::Memcpy,
            "memset" => Bi::Memset,
            "memcmp" | "bcmp" => Bi::Memcmp,
            "strlen" => Bi::Strlen,
            "getrandom" => Bi::Getrandom,
            "syscall" => Bi::Syscall,
            "__errno_location" => Bi::Errno,
            "write" | "writev" => Bi::WriteFd,
            "abort" | "exit" | "_exit" => Bi::Abort,
            "__cxa_thread_atexit_impl" | "getenv" | "close" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "dlsym" | "sched_yield" => Bi::Ret0,
            "vt6_sym_int" => Bi::SymInt,
            "vt6_sym_bytes" => Bi::SymBytes,
            "vt6_sym_choice" => Bi::SymChoice,
            "vt6_sym_assume" => Bi::SymAssume,
            "vt6_sym_cover" => Bi::SymCover,
            "vt6_sym_observe" => Bi::SymObserve,
            "vt6_sym_allow_panic" => Bi::SymAllowPanic,
            "vt6_sym_nested" => Bi::SymNested,
            "vt6_sym_random_mode" => Bi::SymRandom,
            "vt6_sym_param" => Bi::SymParam,
            "vt6_sym_concretize" => Bi::SymConcretize,
            "vt6_sym_steps" => Bi::SymSteps,
            "vt6_sym_is_symbolic" => Bi::SymIsSym,
            _ if n.starts_with("llvm.assume") => Bi::LlvmAssume,
            _ if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") => Bi::Nop,
            _ if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") => Bi::Memcpy,
            _ if n.starts_with("llvm.memset") => Bi::Memset,
            _ if n.starts_with("llvm.trap") => Bi::Abort,
            _ if n.starts_with("llvm.") => Bi::Intr,
            _ => Bi::Unknown,
        }
    }

    fn location(&mut self, st: &mut State, args: &[Val]) -> String {
        // last pointer argument that looks like a core::panic::Location
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                let p = *p as u64;
                if let Some((o, 0)) = st.mem.obj(p) {
                    if o.readonly && o.data.len() >= 24 {
                        let g = |i: usize, n: usize| -> u64 { (0..n).rev().fold(0u64, |x, k| x << 8 | o.data[i + k] as u64) };
                        let (fp, len, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                        if len < 400 {
                            if let Some(b) = st.mem.load_bytes(fp, len as usize) {
                                let s: Vec<u8> = b.iter().map(|v| if let Val::C(x) = v { *x as u8 } else { b'?' }).collect();
                                if let Ok(s) = String::from_utf8(s) {
                                    if s.contains(".rs") {
                                        return format!("{}:{}:{}", s, line, col);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // fall back to the innermost function
        st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default()
    }

    fn builtin(&mut self, st: &mut State, fid: usize, bi: Bi, c: &CallInst, args: &[Val]) -> X<Val> {
        let zero = Val::C(0);
        match bi {
            Bi::Panic => {
                let l = self.location(st, args);
                Err(Stop::Panic(l))
            }
            Bi::Abort => {
                let f = st.frames.last().unwrap().f.name.clone();
                Err(Stop::Panic(format!("abort in {}", f)))
            }
            Bi::LlvmAssume => {
                // a promise of the compiler; never used, but a broken one is noticed
                if c64(&args[0]) == Some(0) {
                    return Err(Stop::Error("llvm.assume does not hold".into()));
                }
                Ok(zero)
            }
            Bi::Nop => Ok(zero),
            Bi::Ret0 => Ok(zero),
            Bi::Memcpy => {
                let n = self.concretize(st, &args[2], 64)? as usize;
                let d = self.concretize(st, &args[0], 64)? as u64;
                let s = self.concretize(st, &args[1], 64)? as u64;
                self.copy(st, d, s, n)?;
                Ok(args[0].clone())
            }
            Bi::Memset => {
                let n = self.concretize(st, &args[2], 64)? as usize;
                let d = self.concretize(st, &args[0], 64)? as u64;
                let b = match &args[1] {
                    Val::C(x) => Val::C(x & 0xff),
                    Val::S(e) => val(extract(*e, 0, 8)),
                    _ => return Err(Stop::Error("memset".into())),
                };
                self.fill(st, d, &b, n)?;
                Ok(args[0].clone())
            }
            Bi::Memcmp => {
                let n = self.concretize(st, &args[2], 64)? as usize;
                if n == 0 {
                    return Ok(zero);
                }
                let a = self.concretize(st, &args[0], 64)? as u64;
                let b = self.concretize(st, &args[1], 64)? as u64;
                let x = match st.mem.load_bytes(a, n) {
                    Some(x) => x,
                    None => return mem_err("read", a, n),
                };
                let y = match st.mem.load_bytes(b, n) {
                    Some(x) => x,
                    None => return mem_err("read", b, n),
                };
                if self.m.funcs[fid].name == "bcmp" {
                    let mut e = konst(1, 1);
                    for i in 0..n {
                        e = and(e, eq(ex(&x[i], 8), ex(&y[i], 8)));
                        if as_const(e) == Some(0) {
                            break;
                        }
                    }
                    return Ok(val(ite(e, konst(0, 32), konst(1, 32))));
                }
                let mut r = konst(0, 32);
                for i in (0..n).rev() {
                    let (p, q) = (ex(&x[i], 8), ex(&y[i], 8));
                    r = ite(eq(p, q), r, ite(ult(p, q), konst(0xffff_ffff, 32), konst(1, 32)));
                }
                Ok(val(r))
            }
            Bi::Strlen => {
                let a = self.concretize(st, &args[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(st, a + n, 1, 8)?;
                    let end = match &b {
                        Val::C(x) => *x == 0,
                        Val::Agg(_) => unreachable!(),
                        Val::S(e) => self.concretize(st, &Val::S(eq(*e, konst(0, 8))), 1)? == 1,
                    };
                    if end {
                        return Ok(Val::C(n as u128));
                    }
                    n += 1;
                }
            }
            Bi::Malloc => {
                let n = self.concretize(st, &args[0], 64)? as u64;
                Ok(Val::C(self.alloc(st, n)? as u128))
            }
            Bi::Calloc => {
                let n = self.concretize(st, &args[0], 64)? as u64;
                let k = self.concretize(st, &args[1], 64)? as u64;
                Ok(Val::C(self.alloc(st, n * k)? as u128))
            }
            Bi::Memalign => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                let n = self.concretize(st, &args[2], 64)? as u64;
                let a = self.alloc(st, n)?;
                self.store(st, &Ty::Ptr, &Val::C(a as u128), p)?;
                Ok(zero)
            }
            Bi::Realloc => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                let n = self.concretize(st, &args[1], 64)? as u64;
                if p == 0 {
                    return Ok(Val::C(self.alloc(st, n)? as u128));
                }
                let old = match st.mem.obj(p) {
                    Some((o, 0)) => o.data.len(),
                    _ => return Err(Stop::Violation("memory".into(), "realloc of a bad pointer".into())),
                };
                let a = self.alloc(st, n)?;
                self.copy(st, a, p, old.min(n as usize))?;
                self.free(st, p)?;
                Ok(Val::C(a as u128))
            }
            Bi::Free => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                if p != 0 {
                    self.free(st, p)?;
                }
                Ok(zero)
            }
            Bi::Getrandom => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                let n = self.concretize(st, &args[1], 64)? as u64;
                self.random(st, p, n)?;
                Ok(Val::C(n as u128))
            }
            Bi::Syscall => {
                let nr = self.concretize(st, &args[0], 64)? as u64;
                if nr == 318 {
                    let p = self.concretize(st, &args[1], 64)? as u64;
                    let n = self.concretize(st, &args[2], 64)? as u64;
                    self.random(st, p, n)?;
                    return Ok(Val::C(n as u128));
                }
                if nr == 202 {
                    // futex: nobody else runs, so whoever waits waits forever
                    let op = self.concretize(st, &args[2], 64)? as u64 & 127;
                    if op == 0 || op == 9 {
                        if st.nested {
                            // a thread that runs in the middle of another one waits for that one: not a schedule under consideration
                            return Err(Stop::Infeasible);
                        }
                        return Err(Stop::Violation("deadlock".into(), "waits for a lock nobody will release".into()));
                    }
                    return Ok(zero);
                }
                Err(Stop::Error(format!("system call {}", nr)))
            }
            Bi::Errno => Ok(Val::C(self.errno as u128)),
            Bi::WriteFd => {
                if self.m.funcs[fid].name == "writev" {
                    return Err(Stop::Error("writev".into()));
                }
                Ok(args[2].clone())
            }
            Bi::Intr => self.intrinsic(st, fid, c, args),
            Bi::SymInt => {
                let w = c64(&args[0]).ok_or(Stop::Error("sym_int width".into()))? as u16;
                let e = self.fresh(st, w);
                Ok(val(zext(e, 64)))
            }
            Bi::SymBytes => {
                let p = self.concretize(st, &args[0], 64)? as u64;
                let n = self.concretize(st, &args[1], 64)? as u64;
                for i in 0..n {
                    let e = self.fresh(st, 8);
                    self.store(st, &Ty::Int(8), &Val::S(e), p + i)?;
                }
                Ok(zero)
            }
            Bi::SymChoice => {
                // forks over 0..n; the choice is logged as an input
                let n = self.concretize(st, &args[0], 64)? as u64;
                if n == 0 {
                    return Err(Stop::Error("choice of nothing".into()));
                }
                let fr = st.frames.last().unwrap();
                let inst_dest = fr.f.blocks[fr.bb as usize].insts[fr.ip as usize].dest;
                for k in (1..n).rev() {
                    let mut s2 = st.clone();
                    s2.inputs.push((64, Val::C(k as u128)));
                    s2.depth_forks += 1;
                    let f2 = Rc::make_mut(s2.frames.last_mut().unwrap());
                    if inst_dest != NODEST {
                        f2.regs[inst_dest as usize] = Val::C(k as u128);
                    }
                    match c.normal {
                        Some(l) => Self::jump(f2, l),
                        None => f2.ip += 1,
                    }
                    self.work.push(s2);
                    self.rep.forks += 1;
                }
                st.inputs.push((64, Val::C(0)));
                Ok(zero)
            }
            Bi::SymAssume => {
                match &args[0] {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    Val::S(e) => {
                        let e = *e;
                        if eval(e, &st.model) == 1 {
                            st.pc.push(e);
                        } else {
                            match self.query(st, e) {
                                Res::Unsat => return Err(Stop::Infeasible),
                                Res::Unknown => return Err(Stop::Inconclusive("solver gave up on an assumption".into())),
                                Res::Sat(m) => {
                                    st.model = Self::overlay(st, &m);
                                    st.pc.push(e);
                                }
                            }
                        }
                    }
                    _ => return Err(Stop::Error("assume".into())),
                }
                Ok(zero)
            }
            Bi::SymCover => {
                let k = self.concretize(st, &args[0], 32)? as u32;
                st.events.push(Ev::Cover(k));
                Ok(zero)
            }
            Bi::SymObserve => {
                let t = self.concretize(st, &args[0], 32)? as u32;
                let n = self.concretize(st, &args[2], 64)? as usize;
                let p = self.concretize(st, &args[1], 64)? as u64;
                let b = if n == 0 {
                    Vec::new()
                } else {
                    match st.mem.load_bytes(p, n) {
                        Some(b) => b,
                        None => return mem_err("read", p, n),
                    }
                };
                st.events.push(Ev::Observe(t, Rc::new(b)));
                Ok(zero)
            }
            Bi::SymAllowPanic => {
                st.allow_panic = self.concretize(st, &args[0], 1)? != 0;
                Ok(zero)
            }
            Bi::SymNested => {
                st.nested = self.concretize(st, &args[0], 1)? != 0;
                Ok(zero)
            }
            Bi::SymRandom => {
                st.sym_random = self.concretize(st, &args[0], 1)? != 0;
                Ok(zero)
            }
            Bi::SymParam => {
                let i = self.concretize(st, &args[0], 32)? as usize;
                Ok(Val::C(self.opts.params.get(i).copied().ok_or(Stop::Error(format!("missing harness parameter {}", i)))? as u128))
            }
            Bi::SymConcretize => Ok(Val::C(self.concretize(st, &args[0], 64)?)),
            Bi::SymSteps => Ok(Val::C(st.steps as u128)),
            Bi::SymIsSym => Ok(Val::C(1)),
            Bi::Unknown => {
                let n = self.m.funcs[fid].name.clone();
                Err(Stop::Error(format!("call of unmodelled external function {}", n)))
            }
            Bi::None | Bi::Redirect(_) => unreachable!(),
        }
    }

    fn fresh(&mut self, st: &mut State, w: u16) -> Ex {
        // variables are shared between paths by their position in the input sequence
        let pos = st.inputs.iter().filter(|i| matches!(i.1, Val::S(_))).count();
        let name = format!("in{}_{}", pos, w);
        let a = ar();
        let found = VARS.with(|m| m.borrow().get(&(pos as u32, w)).copied());
        let e = match found {
            Some(e) => e,
            None => {
                let e = new_var(name, w);
                VARS.with(|m| m.borrow_mut().insert((pos as u32, w), e));
                e
            }
        };
        let _ = a;
        st.inputs.push((w, Val::S(e)));
        e
    }

    fn random(&mut self, st: &mut State, p: u64, n: u64) -> X<()> {
        if st.sym_random {
            for i in 0..n {
                let e = self.fresh(st, 8);
                self.store(st, &Ty::Int(8), &Val::S(e), p + i)?;
            }
            Ok(())
        } else {
            let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11)).collect();
            self.put_bytes(st, p, &b)
        }
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n > (1 << SLOT_SHIFT) - 2 * SLOT_OFF {
            return Err(Stop::Inconclusive(format!("allocation of {} bytes", n)));
        }
        Ok(st.mem.alloc_heap(n))
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        let id = p >> SLOT_SHIFT;
        let ok = (HEAP_ID..STACK_ID).contains(&id) && p & ((1 << SLOT_SHIFT) - 1) == SLOT_OFF;
        if ok {
            let i = (id - HEAP_ID) as usize;
            if i < st.mem.heap.len() && st.mem.heap[i].take().is_some() {
                st.mem.free.push(i as u32);
                st.mem.live_heap -= 1;
                return Ok(());
            }
        }
        Err(Stop::Violation("memory".into(), format!("free of bad pointer {:#x}", p)))
    }

    fn intrinsic(&mut self, st: &mut State, fid: usize, c: &CallInst, args: &[Val]) -> X<Val> {
        let name = self.m.funcs[fid].name.clone();
        let n = &name[5..];
        // element-wise on vectors
        if let Ty::Vector(cnt, e) = &c.ret {
            if !n.starts_with("vector.") {
                let mut out = Vec::new();
                for i in 0..*cnt as usize {
                    let a: Vec<Val> = args
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let w = e.width();
                    out.push(self.scalar_intrinsic(st, n, w, &Ty::Int(w), &a)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
        }
        if n.starts_with("vector.reduce.") {
            let op = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let (t, _) = &c.args[0];
            let w = t.field(0).width();
            if let Val::Agg(x) = &args[0] {
                let mut r = x[0].clone();
                for y in &x[1..] {
                    r = match op.as_str() {
                        "add" => bin_val(BinOp::Add, w, &r, y)?,
                        "or" => bin_val(BinOp::Or, w, &r, y)?,
                        "and" => bin_val(BinOp::And, w, &r, y)?,
                        "xor" => bin_val(BinOp::Xor, w, &r, y)?,
                        _ => return Err(Stop::Error(format!("intrinsic {}", n))),
                    };
                }
                return Ok(r);
            }
        }
        let w = match c.args.first() {
            Some((t, _)) if t.is_scalar() => t.width(),
            _ => 0,
        };
        self.scalar_intrinsic(st, n, w, &c.ret, args)
    }

    fn scalar_intrinsic(&mut self, _st: &mut State, n: &str, w: u16, ret: &Ty, args: &[Val]) -> X<Val> {
        let base = n.rfind('.').map(|i| &n[..i]).unwrap_or(n);
        let sel = |p: Pred, a: &Val, b: &Val| -> Val {
            match icmp_val(p, w, a, b) {
                Val::C(0) => b.clone(),
                Val::C(_) => a.clone(),
                Val::S(e) => val(ite(e, ex(a, w), ex(b, w))),
                _ => panic!(),
            }
        };
        Ok(match base {
            "umax" => sel(Pred::Ugt, &args[0], &args[1]),
            "umin" => sel(Pred::Ult, &args[0], &args[1]),
            "smax" => sel(Pred::Sgt, &args[0], &args[1]),
            "smin" => sel(Pred::Slt, &args[0], &args[1]),
            "abs" => {
                let neg = bin_val(BinOp::Sub, w, &Val::C(0), &args[0])?;
                match icmp_val(Pred::Slt, w, &args[0], &Val::C(0)) {
                    Val::C(0) => args[0].clone(),
                    Val::C(_) => neg,
                    Val::S(e) => val(ite(e, ex(&neg, w), ex(&args[0], w))),
                    _ => panic!(),
                }
            }
            "uadd.with.overflow" => {
                let r = bin_val(BinOp::Add, w, &args[0], &args[1])?;
                let o = icmp_val(Pred::Ult, w, &r, &args[0]);
                Val::Agg(Rc::new(vec![r, o]))
            }
            "usub.with.overflow" => {
                let r = bin_val(BinOp::Sub, w, &args[0], &args[1])?;
                let o = icmp_val(Pred::Ult, w, &args[0], &args[1]);
                Val::Agg(Rc::new(vec![r, o]))
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let add_ = base.starts_with("sadd");
                let r = bin_val(if add_ { BinOp::Add } else { BinOp::Sub }, w, &args[0], &args[1])?;
                let (x, y, z) = (ex(&args[0], w), ex(&args[1], w), ex(&r, w));
                let s = |e: Ex| extract(e, w - 1, 1);
                let o = if add_ {
                    and(not(xor(s(x), s(y))), xor(s(x), s(z)))
                } else {
                    and(xor(s(x), s(y)), xor(s(x), s(z)))
                };
                Val::Agg(Rc::new(vec![r, val(o)]))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let sg = base.starts_with('s');
                let is_const = |v: &Val| matches!(v, Val::C(_));
                let (x, k) = if is_const(&args[1]) { (&args[0], &args[1]) } else { (&args[1], &args[0]) };
                if let (Val::C(x), Val::C(k), false) = (x, k, sg) {
                    let (r, o) = x.overflowing_mul(*k);
                    return Ok(Val::Agg(Rc::new(vec![Val::C(r & mask(w)), Val::C((o || r > mask(w)) as u128)])));
                }
                if let (Val::C(x), Val::C(k), true) = (x, k, sg) {
                    let (r, o) = sext128(*x, w).overflowing_mul(sext128(*k, w));
                    let o = o || sext128(r as u128 & mask(w), w) != r;
                    return Ok(Val::Agg(Rc::new(vec![Val::C(r as u128 & mask(w)), Val::C(o as u128)])));
                }
                if let (Val::S(e), Val::C(k), true) = (x, k, sg) {
                    let k = sext128(*k, w);
                    let (max, min) = ((mask(w) >> 1) as i128, sext128(1u128 << (w - 1), w));
                    let kc = |v: i128| konst(v as u128 & mask(w), w);
                    let r = val(mul(*e, kc(k)));
                    let o = match k {
                        0 => konst(0, 1),
                        -1 => eq(*e, kc(min)),
                        k if k > 0 => or(slt(kc(max / k), *e), slt(*e, kc(min / k))),
                        k => or(slt(*e, kc(max / k)), slt(kc(min / k), *e)),
                    };
                    return Ok(Val::Agg(Rc::new(vec![r, val(o)])));
                }
                if !sg {
                    if let (Val::S(e), Val::C(k)) = (x, k) {
                        if *k == 0 {
                            return Ok(Val::Agg(Rc::new(vec![Val::C(0), Val::C(0)])));
                        }
                        let r = val(mul(*e, konst(*k, w)));
                        let o = val(ult(konst(mask(w) / *k, w), *e));
                        return Ok(Val::Agg(Rc::new(vec![r, o])));
                    }
                }
                if w > 64 {
                    return Err(Stop::Error("wide mul overflow".into()));
                }
                let c = if sg { CastOp::SExt } else { CastOp::ZExt };
                let w2 = w * 2;
                let (x, y) = (cast_scalar(c, w, &args[0], w2), cast_scalar(c, w, &args[1], w2));
                let p = bin_val(BinOp::Mul, w2, &x, &y)?;
                let r = cast_scalar(CastOp::Trunc, w2, &p, w);
                let back = cast_scalar(c, w, &r, w2);
                let o = icmp_val(Pred::Ne, w2, &back, &p);
                Val::Agg(Rc::new(vec![r, o]))
            }
            "usub.sat" => {
                let r = bin_val(BinOp::Sub, w, &args[0], &args[1])?;
                match icmp_val(Pred::Ult, w, &args[0], &args[1]) {
                    Val::C(0) => r,
                    Val::C(_) => Val::C(0),
                    Val::S(e) => val(ite(e, konst(0, w), ex(&r, w))),
                    _ => panic!(),
                }
            }
            "uadd.sat" => {
                let r = bin_val(BinOp::Add, w, &args[0], &args[1])?;
                match icmp_val(Pred::Ult, w, &r, &args[0]) {
                    Val::C(0) => r,
                    Val::C(_) => Val::C(mask(w)),
                    Val::S(e) => val(ite(e, konst(mask(w), w), ex(&r, w))),
                    _ => panic!(),
                }
            }
            "ctpop" => {
                let x = ex(&args[0], w);
                let mut r = konst(0, w);
                for i in 0..w {
                    r = add(r, zext(extract(x, i, 1), w));
                }
                val(r)
            }
            "ctlz" | "cttz" => {
                if let Val::C(x) = args[0] {
                    let r = if base == "ctlz" {
                        (x << (128 - w as u32)).leading_zeros().min(w as u32)
                    } else {
                        x.trailing_zeros().min(w as u32)
                    };
                    Val::C(r as u128)
                } else {
                    let x = ex(&args[0], w);
                    let mut r = konst(w as u128, w);
                    if base == "ctlz" {
                        for i in 0..w {
                            r = ite(extract(x, i, 1), konst((w - 1 - i) as u128, w), r);
                        }
                    } else {
                        for i in (0..w).rev() {
                            r = ite(extract(x, i, 1), konst(i as u128, w), r);
                        }
                    }
                    val(r)
                }
            }
            "bswap" => {
                let x = ex(&args[0], w);
                let mut r = extract(x, 0, 8);
                for i in 1..w / 8 {
                    r = concat(r, extract(x, i * 8, 8));
                }
                val(r)
            }
            "bitreverse" => {
                let x = ex(&args[0], w);
                let mut r = extract(x, 0, 1);
                for i in 1..w {
                    r = concat(r, extract(x, i, 1));
                }
                val(r)
            }
            "fshl" | "fshr" => {
                let s = match &args[2] {
                    Val::C(s) => (*s % w as u128) as u16,
                    _ => return Err(Stop::Error("funnel shift by symbolic amount".into())),
                };
                let (x, y) = (ex(&args[0], w), ex(&args[1], w));
                if s == 0 {
                    if base == "fshl" {
                        args[0].clone()
                    } else {
                        args[1].clone()
                    }
                } else {
                    let k = if base == "fshl" { w - s } else { s };
                    // (x:y) >> k, low w bits
                    val(concat(extract(x, 0, k), extract(y, k, w - k)))
                }
            }
            "ucmp" | "scmp" => unreachable!(),
            "threadlocal.address" => args[0].clone(),
            "is.constant" => Val::C(0),
            "expect" => args[0].clone(),
            "ptrmask" => bin_val(BinOp::And, 64, &args[0], &args[1])?,
            _ if n.starts_with("ucmp") || n.starts_with("scmp") => {
                let s = n.starts_with('s');
                let lt = icmp_val(if s { Pred::Slt } else { Pred::Ult }, w, &args[0], &args[1]);
                let gt = icmp_val(if s { Pred::Sgt } else { Pred::Ugt }, w, &args[0], &args[1]);
                let rw = ret.width();
                let r = ite(ex(&lt, 1), konst(mask(rw), rw), zext(ex(&gt, 1), rw));
                val(r)
            }
            _ if n.starts_with("threadlocal") => args[0].clone(),
            _ => return Err(Stop::Error(format!("intrinsic llvm.{}", n))),
        })
    }
}

thread_local! {
    static VARS: std::cell::RefCell<HashMap<(u32, u16), Ex>> = std::cell::RefCell::new(HashMap::new());
}

fn self_cast(c: CastOp, from: &Ty, v: &Val, to: &Ty) -> X<Val> {
    match (from, to, v) {
        (Ty::Vector(n, a), Ty::Vector(m, b), Val::Agg(x)) if n == m && c != CastOp::BitCast => {
            Ok(Val::Agg(Rc::new(x.iter().map(|e| cast_scalar(c, a.width(), e, b.width())).collect())))
        }
        _ if from.is_scalar() && to.is_scalar() => Ok(cast_scalar(c, from.width(), v, to.width())),
        // bitcasts through the concatenation of all bits
        _ => {
            let (bits, w) = match (from, v) {
                (Ty::Vector(_, e), Val::Agg(x)) => {
                    let ew = e.width();
                    let mut r = ex(&x[0], ew);
                    for y in &x[1..] {
                        r = concat(ex(y, ew), r);
                    }
                    (r, ew * x.len() as u16)
                }
                (t, v) if t.is_scalar() => (ex(v, t.width()), t.width()),
                _ => return Err(Stop::Error(format!("cast {:?} to {:?}", from, to))),
            };
            match to {
                Ty::Vector(n, e) => {
                    let ew = e.width();
                    Ok(Val::Agg(Rc::new((0..*n as u16).map(|i| val(extract(bits, i * ew, ew))).collect())))
                }
                t if t.is_scalar() && t.width() == w => Ok(val(bits)),
                _ => Err(Stop::Error(format!("cast {:?} to {:?}", from, to))),
            }
        }
    }
}

/// Resolves a debug location id to (file, line, function), following the metadata table.
pub fn debug_loc(m: &Module, id: u32) -> Vec<(String, u32, String)> {
    let mut out = Vec::new();
    let mut cur = Some(id);
    let mut guard = 0;
    while let Some(i) = cur {
        guard += 1;
        if guard > 40 {
            break;
        }
        let l = match m.meta.get(&i) {
            Some(&li) => m.lines[li],
            None => break,
        };
        let line = field(l, "line: ").and_then(|s| s.parse().ok()).unwrap_or(0);
        let scope = field(l, "scope: !").and_then(|s| s.parse::<u32>().ok());
        let (file, func) = scope.map(|s| scope_of(m, s)).unwrap_or_default();
        out.push((file, line, func));
        cur = field(l, "inlinedAt: !").and_then(|s| s.parse().ok());
    }
    out
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = l.find(k)? + k.len();
    let r = &l[p..];
    let e = r.find([',', ')']).unwrap_or(r.len());
    Some(&r[..e])
}

fn scope_of(m: &Module, mut s: u32) -> (String, String) {
    let mut file = String::new();
    for _ in 0..60 {
        let l = match m.meta.get(&s) {
            Some(&li) => m.lines[li],
            None => break,
        };
        if file.is_empty() {
            if let Some(f) = field(l, "file: !").and_then(|x| x.parse::<u32>().ok()) {
                if let Some(&li) = m.meta.get(&f) {
                    let fl = m.lines[li];
                    let name = field(fl, "filename: \"").unwrap_or("").trim_end_matches('"').to_string();
                    let dir = field(fl, "directory: \"").unwrap_or("").trim_end_matches('"').to_string();
                    file = if name.starts_with('/') { name } else { format!("{}/{}", dir, name) };
                }
            }
        }
        if l.contains("DISubprogram(") {
            let n = field(l, "linkageName: \"").or(field(l, "name: \"")).unwrap_or("").trim_end_matches('"').to_string();
            return (file, n);
        }
        match field(l, "scope: !").and_then(|x| x.parse().ok()) {
            Some(n) => s = n,
            None => break,
        }
    }
    (file, String::new())
}

#[allow(unused)]
fn unused() {
    let _ = expr::umax;
}
