//! Hash-consed bit-vector expressions with local simplification.
//!
//! Widths are 1..=128. There is no separate boolean sort: predicates have width 1.
//! Zero extension is represented as a concatenation with constant zero bits.

use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var, // a = variable number
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high part, b = low part
    Extract, // a = operand, b = low bit
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32, std::hash::BuildHasherDefault<Fx>>,
    vars: Vec<Option<Rc<[u32]>>>,
    pub var_nodes: Vec<Ex>,
    pub var_names: Vec<String>,
    umax: Vec<Option<u128>>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    gen: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
    fn write_i64(&mut self, v: i64) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

struct Global(UnsafeCell<Option<Arena>>);
unsafe impl Sync for Global {}
static ARENA: Global = Global(UnsafeCell::new(None));

/// The process is single-threaded; the arena lives for its whole lifetime.
#[allow(clippy::mut_from_ref)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        let p = &mut *ARENA.0.get();
        if p.is_none() {
            *p = Some(Arena {
                nodes: Vec::new(),
                map: HashMap::default(),
                vars: Vec::new(),
                var_nodes: Vec::new(),
                var_names: Vec::new(),
                umax: Vec::new(),
                stamp: Vec::new(),
                val: Vec::new(),
                gen: 0,
            });
        }
        p.as_mut().unwrap()
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn intern(n: Node) -> Ex {
    let a = ar();
    if let Some(&i) = a.map.get(&n) {
        return Ex(i);
    }
    let i = a.nodes.len() as u32;
    a.nodes.push(n);
    a.map.insert(n, i);
    a.vars.push(None);
    a.umax.push(None);
    a.stamp.push(0);
    a.val.push(0);
    Ex(i)
}

pub fn node(e: Ex) -> Node {
    ar().nodes[e.0 as usize]
}
pub fn width(e: Ex) -> u16 {
    ar().nodes[e.0 as usize].w
}
pub fn konst(v: u128, w: u16) -> Ex {
    intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}
pub fn as_const(e: Ex) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn new_var(name: String, w: u16) -> Ex {
    let a = ar();
    let id = a.var_nodes.len() as u32;
    let e = intern(Node { op: Op::Var, w, a: id, b: 0, c: 0, k: 0 });
    a.var_nodes.push(e);
    a.var_names.push(name);
    e
}

fn mk(op: Op, w: u16, a: Ex, b: Ex) -> Ex {
    intern(Node { op, w, a: a.0, b: b.0, c: 0, k: 0 })
}

pub fn not(e: Ex) -> Ex {
    debug_assert!(width(e) == 1);
    xor(e, konst(1, 1))
}

pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                (if a >= 0 { m } else { 1 }) & m
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sext128(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        _ => unreachable!(),
    }
}

pub fn add(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b));
    if w == 1 {
        return xor(a, b);
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        if let Some(x) = as_const(a) {
            return konst(x.wrapping_add(y), w);
        }
        let n = node(a);
        if n.op == Op::Add {
            if let Some(z) = as_const(Ex(n.b)) {
                return add(Ex(n.a), konst(y.wrapping_add(z), w));
            }
        }
        if n.op == Op::Ite {
            if let (Some(p), Some(q)) = (as_const(Ex(n.b)), as_const(Ex(n.c))) {
                return ite(Ex(n.a), konst(p.wrapping_add(y), w), konst(q.wrapping_add(y), w));
            }
        }
        return mk(Op::Add, w, a, b);
    }
    // keep constants outermost
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Add {
        if let Some(k) = as_const(Ex(na.b)) {
            return add(add(Ex(na.a), b), konst(k, w));
        }
    }
    if nb.op == Op::Add {
        if let Some(k) = as_const(Ex(nb.b)) {
            return add(add(a, Ex(nb.a)), konst(k, w));
        }
    }
    // x + (-1)*x
    if let Some(x) = negated(b) {
        if x == a {
            return konst(0, w);
        }
        if na.op == Op::Add {
            if Ex(na.a) == x {
                return Ex(na.b);
            }
            if Ex(na.b) == x {
                return Ex(na.a);
            }
        }
    }
    if let Some(x) = negated(a) {
        if x == b {
            return konst(0, w);
        }
        if nb.op == Op::Add {
            if Ex(nb.a) == x {
                return Ex(nb.b);
            }
            if Ex(nb.b) == x {
                return Ex(nb.a);
            }
        }
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Add, w, a, b)
}

fn negated(e: Ex) -> Option<Ex> {
    let n = node(e);
    if n.op == Op::Mul && as_const(Ex(n.b)) == Some(mask(n.w)) {
        Some(Ex(n.a))
    } else {
        None
    }
}

pub fn sub(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if a == b {
        return konst(0, w);
    }
    if let Some(y) = as_const(b) {
        return add(a, konst(y.wrapping_neg(), w));
    }
    add(a, mul(b, konst(mask(w), w)))
}

pub fn mul(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return konst(x.wrapping_mul(y), w);
        }
        if y == 0 {
            return b;
        }
        if y == 1 {
            return a;
        }
        if y.is_power_of_two() {
            return shl(a, konst(y.trailing_zeros() as u128, w));
        }
        let n = node(a);
        if n.op == Op::Mul {
            if let Some(z) = as_const(Ex(n.b)) {
                return mul(Ex(n.a), konst(y.wrapping_mul(z), w));
            }
        }
        if n.op == Op::Ite {
            if let (Some(p), Some(q)) = (as_const(Ex(n.b)), as_const(Ex(n.c))) {
                return ite(Ex(n.a), konst(p.wrapping_mul(y), w), konst(q.wrapping_mul(y), w));
            }
        }
        return mk(Op::Mul, w, a, b);
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Mul, w, a, b)
}

pub fn divrem(op: Op, a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(fold(op, w, x, y), w);
    }
    if let Some(y) = as_const(b) {
        match op {
            Op::UDiv if y == 1 => return a,
            Op::URem if y == 1 => return konst(0, w),
            Op::UDiv if y.is_power_of_two() => {
                return lshr(a, konst(y.trailing_zeros() as u128, w))
            }
            Op::URem if y.is_power_of_two() => return and(a, konst(y - 1, w)),
            Op::UDiv if y > umax(a) => return konst(0, w),
            Op::URem if y > umax(a) => return a,
            Op::UDiv if y != 0 => {
                // (x / c) / y == x / (c * y)
                let n = node(a);
                if n.op == Op::UDiv {
                    if let Some(c) = as_const(Ex(n.b)) {
                        if c != 0 {
                            return match c.checked_mul(y) {
                                Some(p) if p <= mask(w) => divrem(Op::UDiv, Ex(n.a), konst(p, w)),
                                _ => konst(0, w),
                            };
                        }
                    }
                }
            }
            _ => {}
        }
        // narrow the division to the significant bits
        if matches!(op, Op::UDiv | Op::URem) {
            let n = node(a);
            if n.op == Op::Concat && as_const(Ex(n.a)) == Some(0) {
                let lw = width(Ex(n.b));
                if y != 0 && y <= mask(lw) {
                    let r = divrem(op, Ex(n.b), konst(y, lw));
                    return zext(r, w);
                }
            }
        }
    }
    mk(op, w, a, b)
}

/// Splits `e` as (high, low) at bit `k` when that is structurally free.
fn split_at(e: Ex, k: u16) -> Option<(Ex, Ex)> {
    let n = node(e);
    match n.op {
        Op::Const | Op::Concat => {
            Some((extract(e, k, n.w - k), extract(e, 0, k)))
        }
        _ => None,
    }
}

fn concat_split(e: Ex) -> Option<u16> {
    let n = node(e);
    if n.op == Op::Concat {
        Some(width(Ex(n.b)))
    } else {
        None
    }
}

pub fn and(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b));
    if a == b {
        return a;
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if y == 0 {
            return b;
        }
        if y == mask(w) {
            return a;
        }
        if let Some(x) = as_const(a) {
            return konst(x & y, w);
        }
        // low mask => zext(extract)
        if (y + 1).is_power_of_two() {
            let k = (y + 1).trailing_zeros() as u16;
            return zext(extract(a, 0, k), w);
        }
        // mask with low zero bits
        let tz = y.trailing_zeros() as u16;
        if tz > 0 {
            let hi = and(extract(a, tz, w - tz), konst(y >> tz, w - tz));
            return concat(hi, konst(0, tz));
        }
        // mask with high zero bits
        let hb = 128 - y.leading_zeros() as u16;
        if hb < w {
            return zext(and(extract(a, 0, hb), konst(y, hb)), w);
        }
    }
    if w == 1 {
        // x & !x
        if not1(a) == Some(b) || not1(b) == Some(a) {
            return konst(0, 1);
        }
        let na = node(a);
        if na.op == Op::And && (Ex(na.a) == b || Ex(na.b) == b) {
            return a;
        }
        let nb = node(b);
        if nb.op == Op::And && (Ex(nb.a) == a || Ex(nb.b) == a) {
            return b;
        }
    }
    if let Some(k) = concat_split(a).or(concat_split(b)) {
        if let (Some((ah, al)), Some((bh, bl))) = (split_at(a, k), split_at(b, k)) {
            return concat(and(ah, bh), and(al, bl));
        }
        // zero-extended operand: only the low part matters
        for (p, q) in [(a, b), (b, a)] {
            let n = node(p);
            if n.op == Op::Concat && as_const(Ex(n.a)) == Some(0) {
                let lw = width(Ex(n.b));
                return zext(and(Ex(n.b), extract(q, 0, lw)), w);
            }
        }
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::And, w, a, b)
}

fn not1(e: Ex) -> Option<Ex> {
    let n = node(e);
    if n.w == 1 && n.op == Op::Xor && as_const(Ex(n.b)) == Some(1) {
        Some(Ex(n.a))
    } else {
        None
    }
}

pub fn or(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b));
    if a == b {
        return a;
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return b;
        }
        if let Some(x) = as_const(a) {
            return konst(x | y, w);
        }
    }
    if w == 1 {
        if not1(a) == Some(b) || not1(b) == Some(a) {
            return konst(1, 1);
        }
        // x <= y | x == y style merges are left to the solver
        let na = node(a);
        if na.op == Op::Or && (Ex(na.a) == b || Ex(na.b) == b) {
            return a;
        }
    }
    if let Some(k) = concat_split(a).or(concat_split(b)) {
        if let (Some((ah, al)), Some((bh, bl))) = (split_at(a, k), split_at(b, k)) {
            return concat(or(ah, bh), or(al, bl));
        }
    }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Or, w, a, b)
}

pub fn xor(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b));
    if a == b {
        return konst(0, w);
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        if let Some(x) = as_const(a) {
            return konst(x ^ y, w);
        }
        let n = node(a);
        if n.op == Op::Xor {
            if let Some(z) = as_const(Ex(n.b)) {
                return xor(Ex(n.a), konst(y ^ z, w));
            }
        }
        if w == 1 && y == 1 {
            match n.op {
                Op::Ult => return ule(Ex(n.b), Ex(n.a)),
                Op::Ule => return ult(Ex(n.b), Ex(n.a)),
                Op::Slt => return sle(Ex(n.b), Ex(n.a)),
                Op::Sle => return slt(Ex(n.b), Ex(n.a)),
                _ => {}
            }
        }
    }
    if let Some(k) = concat_split(a).or(concat_split(b)) {
        if let (Some((ah, al)), Some((bh, bl))) = (split_at(a, k), split_at(b, k)) {
            return concat(xor(ah, bh), xor(al, bl));
        }
    }
    let (a, b) = if as_const(b).is_some() || a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Xor, w, a, b)
}

pub fn shl(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        if y >= w as u128 {
            return konst(0, w);
        }
        let k = y as u16;
        return concat(extract(a, 0, w - k), konst(0, k));
    }
    mk(Op::Shl, w, a, b)
}
pub fn lshr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        if y >= w as u128 {
            return konst(0, w);
        }
        let k = y as u16;
        return zext(extract(a, k, w - k), w);
    }
    if as_const(a) == Some(0) {
        return a;
    }
    mk(Op::LShr, w, a, b)
}
pub fn ashr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(y) = as_const(b) {
        if y == 0 {
            return a;
        }
        let k = if y >= w as u128 { w - 1 } else { y as u16 };
        return sext(extract(a, k, w - k), w);
    }
    mk(Op::AShr, w, a, b)
}

pub fn concat(h: Ex, l: Ex) -> Ex {
    let (wh, wl) = (width(h), width(l));
    let w = wh + wl;
    assert!(w <= 128, "concat too wide");
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) {
        return konst((x << wl) | y, w);
    }
    let (nh, nl) = (node(h), node(l));
    // adjacent extracts of the same operand
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl as u32 {
        return extract(Ex(nh.a), nl.b as u16, w);
    }
    if nl.op == Op::Concat {
        let m = node(Ex(nl.a));
        // Concat(E1, Concat(E2, r)) where E1,E2 fuse
        let fuse = (as_const(h).is_some() && m.op == Op::Const)
            || (nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.b == m.b + m.w as u32);
        if fuse {
            return concat(concat(h, Ex(nl.a)), Ex(nl.b));
        }
    }
    if nh.op == Op::Concat {
        // right-nest
        return concat(Ex(nh.a), concat(Ex(nh.b), l));
    }
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
        let (p, q) = (as_const(Ex(nh.b)), as_const(Ex(nh.c)));
        let (r, s) = (as_const(Ex(nl.b)), as_const(Ex(nl.c)));
        if p.is_some() && q.is_some() && r.is_some() && s.is_some() {
            return ite(Ex(nh.a), concat(Ex(nh.b), Ex(nl.b)), concat(Ex(nh.c), Ex(nl.c)));
        }
    }
    mk(Op::Concat, w, h, l)
}

pub fn zext(e: Ex, w: u16) -> Ex {
    let we = width(e);
    if we == w {
        return e;
    }
    concat(konst(0, w - we), e)
}
pub fn sext(e: Ex, w: u16) -> Ex {
    let we = width(e);
    if we == w {
        return e;
    }
    if let Some(x) = as_const(e) {
        return konst(sext128(x, we) as u128, w);
    }
    let n = node(e);
    if n.op == Op::Concat {
        if let Some(h) = as_const(Ex(n.a)) {
            let wh = width(Ex(n.a));
            if h >> (wh - 1) == 0 {
                return zext(e, w);
            }
        }
    }
    intern(Node { op: Op::SExt, w, a: e.0, b: 0, c: 0, k: 0 })
}

pub fn extract(e: Ex, lo: u16, w: u16) -> Ex {
    let n = node(e);
    debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
    if lo == 0 && w == n.w {
        return e;
    }
    match n.op {
        Op::Const => konst(n.k >> lo, w),
        Op::Extract => extract(Ex(n.a), lo + n.b as u16, w),
        Op::Concat => {
            let wl = width(Ex(n.b));
            if lo >= wl {
                extract(Ex(n.a), lo - wl, w)
            } else if lo + w <= wl {
                extract(Ex(n.b), lo, w)
            } else {
                concat(extract(Ex(n.a), 0, lo + w - wl), extract(Ex(n.b), lo, wl - lo))
            }
        }
        Op::SExt => {
            let we = width(Ex(n.a));
            if lo + w <= we {
                extract(Ex(n.a), lo, w)
            } else if lo < we {
                sext(extract(Ex(n.a), lo, we - lo), w)
            } else {
                sext(extract(Ex(n.a), we - 1, 1), w)
            }
        }
        Op::Ite => {
            let (x, y) = (extract(Ex(n.b), lo, w), extract(Ex(n.c), lo, w));
            ite(Ex(n.a), x, y)
        }
        Op::And => and(extract(Ex(n.a), lo, w), extract(Ex(n.b), lo, w)),
        Op::Or => or(extract(Ex(n.a), lo, w), extract(Ex(n.b), lo, w)),
        Op::Xor => xor(extract(Ex(n.a), lo, w), extract(Ex(n.b), lo, w)),
        Op::Add if lo == 0 => add(extract(Ex(n.a), 0, w), extract(Ex(n.b), 0, w)),
        Op::Mul if lo == 0 => mul(extract(Ex(n.a), 0, w), extract(Ex(n.b), 0, w)),
        _ => intern(Node { op: Op::Extract, w, a: e.0, b: lo as u32, c: 0, k: 0 }),
    }
}

pub fn umax(e: Ex) -> u128 {
    if let Some(v) = ar().umax[e.0 as usize] {
        return v;
    }
    let n = node(e);
    let m = mask(n.w);
    let r = match n.op {
        Op::Const => n.k,
        Op::Concat => (umax(Ex(n.a)) << width(Ex(n.b))) | umax(Ex(n.b)),
        Op::Ite => umax(Ex(n.b)).max(umax(Ex(n.c))),
        Op::And => umax(Ex(n.a)).min(umax(Ex(n.b))),
        Op::UDiv => match as_const(Ex(n.b)) {
            Some(k) if k != 0 => umax(Ex(n.a)) / k,
            _ => m,
        },
        Op::URem => match as_const(Ex(n.b)) {
            Some(k) if k != 0 => (k - 1).min(umax(Ex(n.a))),
            _ => m,
        },
        Op::Add => {
            let (x, y) = (umax(Ex(n.a)), umax(Ex(n.b)));
            match x.checked_add(y) {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        Op::Mul => match umax(Ex(n.a)).checked_mul(umax(Ex(n.b))) {
            Some(s) if s <= m => s,
            _ => m,
        },
        _ => m,
    };
    ar().umax[e.0 as usize] = Some(r);
    r
}

fn ite_const_arms(e: Ex) -> Option<(Ex, u128, u128)> {
    let n = node(e);
    if n.op == Op::Ite {
        if let (Some(p), Some(q)) = (as_const(Ex(n.b)), as_const(Ex(n.c))) {
            return Some((Ex(n.a), p, q));
        }
    }
    None
}

fn bool_const(b: bool) -> Ex {
    konst(b as u128, 1)
}

fn ite_bool(c: Ex, p: bool, q: bool) -> Ex {
    match (p, q) {
        (true, true) => bool_const(true),
        (false, false) => bool_const(false),
        (true, false) => c,
        (false, true) => not(c),
    }
}

pub fn eq(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b), "eq widths {} {}", w, width(b));
    if a == b {
        return bool_const(true);
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = as_const(b) {
        if let Some(x) = as_const(a) {
            return bool_const(x == y);
        }
        if w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        let n = node(a);
        match n.op {
            Op::Add => {
                if let Some(k) = as_const(Ex(n.b)) {
                    return eq(Ex(n.a), konst(y.wrapping_sub(k), w));
                }
            }
            Op::Xor => {
                if let Some(k) = as_const(Ex(n.b)) {
                    return eq(Ex(n.a), konst(y ^ k, w));
                }
            }
            Op::UDiv => {
                if let Some(c) = as_const(Ex(n.b)) {
                    if c != 0 && y <= umax(a) {
                        // c * y <= x < c * (y + 1)
                        if let Some(p) = c.checked_mul(y).filter(|p| *p <= mask(w)) {
                            let lo = ule(konst(p, w), Ex(n.a));
                            return match p.checked_add(c) {
                                Some(q) if q <= mask(w) => and(lo, ult(Ex(n.a), konst(q, w))),
                                _ => lo,
                            };
                        }
                    }
                }
            }
            Op::Concat => {
                let wl = width(Ex(n.b));
                let h = eq(Ex(n.a), konst(y >> wl, w - wl));
                if as_const(h) == Some(0) {
                    return h;
                }
                let l = eq(Ex(n.b), konst(y, wl));
                return and(h, l);
            }
            Op::SExt => {
                let we = width(Ex(n.a));
                let lowv = y & mask(we);
                if (sext128(lowv, we) as u128) & mask(w) != y {
                    return bool_const(false);
                }
                return eq(Ex(n.a), konst(lowv, we));
            }
            Op::Ite => {
                if let Some((c, p, q)) = ite_const_arms(a) {
                    return ite_bool(c, p == y, q == y);
                }
                if as_const(Ex(n.b)).is_some() || as_const(Ex(n.c)).is_some() {
                    return ite(Ex(n.a), eq(Ex(n.b), b), eq(Ex(n.c), b));
                }
            }
            _ => {}
        }
        if y > umax(a) {
            return bool_const(false);
        }
    } else {
        if let Some(k) = concat_split(a) {
            if concat_split(b) == Some(k) {
                let (na, nb) = (node(a), node(b));
                let h = eq(Ex(na.a), Ex(nb.a));
                if as_const(h) == Some(0) {
                    return h;
                }
                return and(h, eq(Ex(na.b), Ex(nb.b)));
            }
        }
        let (na, nb) = (node(a), node(b));
        // x + k1 == x + k2, x + k == y + k
        if na.op == Op::Add && nb.op == Op::Add && as_const(Ex(na.b)).is_some() && na.b == nb.b {
            return eq(Ex(na.a), Ex(nb.a));
        }
        let base = |e: Ex| -> (Ex, u128) {
            let n = node(e);
            if n.op == Op::Add {
                if let Some(k) = as_const(Ex(n.b)) {
                    return (Ex(n.a), k);
                }
            }
            (e, 0)
        };
        let ((xa, ka), (xb, kb)) = (base(a), base(b));
        if xa == xb {
            return bool_const(ka == kb);
        }
    }
    let (a, b) = if as_const(b).is_some() || a.0 <= b.0 { (a, b) } else { (b, a) };
    mk(Op::Eq, 1, a, b)
}

pub fn ult(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    debug_assert!(w == width(b));
    if a == b {
        return bool_const(false);
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return bool_const(x < y),
        (None, Some(y)) => {
            if y == 0 {
                return bool_const(false);
            }
            if umax(a) < y {
                return bool_const(true);
            }
            if y == 1 {
                return eq(a, konst(0, w));
            }
            if let Some((c, p, q)) = ite_const_arms(a) {
                return ite_bool(c, p < y, q < y);
            }
            let n = node(a);
            if let (Op::UDiv, Some(c)) = (n.op, as_const(Ex(n.b))) {
                if c != 0 {
                    return match c.checked_mul(y) {
                        Some(p) if p <= mask(w) => ult(Ex(n.a), konst(p, w)),
                        _ => bool_const(true),
                    };
                }
            }
            if n.op == Op::Concat {
                if as_const(Ex(n.a)) == Some(0) {
                    let wl = width(Ex(n.b));
                    return ult(Ex(n.b), konst(y, wl)); // y <= mask(wl) as umax(a) >= y
                }
            }
            if n.op == Op::Ite && (as_const(Ex(n.b)).is_some() || as_const(Ex(n.c)).is_some()) {
                return ite(Ex(n.a), ult(Ex(n.b), b), ult(Ex(n.c), b));
            }
        }
        (Some(x), None) => {
            if x == mask(w) || x >= umax(b) {
                return bool_const(false);
            }
            if let Some((c, p, q)) = ite_const_arms(b) {
                return ite_bool(c, x < p, x < q);
            }
            let n = node(b);
            if n.op == Op::Concat && as_const(Ex(n.a)) == Some(0) {
                let wl = width(Ex(n.b));
                return ult(konst(x, wl), Ex(n.b));
            }
            if let (Op::UDiv, Some(c)) = (n.op, as_const(Ex(n.b))) {
                if c != 0 {
                    // x < p / c  <=>  p > c * (x + 1) - 1
                    return match c.checked_mul(x + 1) {
                        Some(p) if p - 1 <= mask(w) => ult(konst(p - 1, w), Ex(n.a)),
                        _ => bool_const(false),
                    };
                }
            }
            if x == 0 {
                return not(eq(b, konst(0, w)));
            }
            if n.op == Op::Ite && (as_const(Ex(n.b)).is_some() || as_const(Ex(n.c)).is_some()) {
                return ite(Ex(n.a), ult(a, Ex(n.b)), ult(a, Ex(n.c)));
            }
        }
        (None, None) => {
            let (na, nb) = (node(a), node(b));
            if na.op == Op::Concat
                && nb.op == Op::Concat
                && as_const(Ex(na.a)) == Some(0)
                && as_const(Ex(nb.a)) == Some(0)
                && width(Ex(na.a)) == width(Ex(nb.a))
            {
                return ult(Ex(na.b), Ex(nb.b));
            }
        }
    }
    mk(Op::Ult, 1, a, b)
}
pub fn ule(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if a == b {
        return bool_const(true);
    }
    if let Some(y) = as_const(b) {
        if y == mask(w) {
            return bool_const(true);
        }
        return ult(a, konst(y + 1, w));
    }
    if let Some(x) = as_const(a) {
        if x == 0 {
            return bool_const(true);
        }
        return ult(konst(x - 1, w), b);
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Concat
        && nb.op == Op::Concat
        && as_const(Ex(na.a)) == Some(0)
        && as_const(Ex(nb.a)) == Some(0)
        && width(Ex(na.a)) == width(Ex(nb.a))
    {
        return ule(Ex(na.b), Ex(nb.b));
    }
    mk(Op::Ule, 1, a, b)
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if a == b {
        return bool_const(false);
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return bool_const(sext128(x, w) < sext128(y, w));
    }
    if w == 1 {
        // -1 < 0
        return and(a, not(b));
    }
    let nonneg = |e: Ex| umax(e) < (1u128 << (w - 1));
    if nonneg(a) && nonneg(b) {
        return ult(a, b);
    }
    if as_const(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    if as_const(a) == Some(mask(w)) {
        return not(extract(b, w - 1, 1));
    }
    if let (Some((c, p, q)), Some(y)) = (ite_const_arms(a), as_const(b)) {
        return ite_bool(c, sext128(p, w) < sext128(y, w), sext128(q, w) < sext128(y, w));
    }
    if let (Some((c, p, q)), Some(x)) = (ite_const_arms(b), as_const(a)) {
        return ite_bool(c, sext128(x, w) < sext128(p, w), sext128(x, w) < sext128(q, w));
    }
    mk(Op::Slt, 1, a, b)
}
pub fn sle(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if a == b {
        return bool_const(true);
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return bool_const(sext128(x, w) <= sext128(y, w));
    }
    if w == 1 {
        return or(a, not(b));
    }
    let nonneg = |e: Ex| umax(e) < (1u128 << (w - 1));
    if nonneg(a) && nonneg(b) {
        return ule(a, b);
    }
    if as_const(a) == Some(0) {
        return not(extract(b, w - 1, 1));
    }
    if as_const(b) == Some(mask(w)) {
        return extract(a, w - 1, 1);
    }
    mk(Op::Sle, 1, a, b)
}

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    debug_assert!(width(c) == 1 && width(a) == width(b));
    if a == b {
        return a;
    }
    match as_const(c) {
        Some(1) => return a,
        Some(_) => return b,
        None => {}
    }
    let w = width(a);
    if let Some(nc) = not1(c) {
        return ite(nc, b, a);
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(1)) => return or(not(c), a),
            (None, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Ite && Ex(na.a) == c {
        return ite(c, Ex(na.b), b);
    }
    if nb.op == Op::Ite && Ex(nb.a) == c {
        return ite(c, a, Ex(nb.c));
    }
    // share the high parts of zero-extended arms
    if na.op == Op::Concat || nb.op == Op::Concat {
        if let Some(k) = concat_split(a).or(concat_split(b)) {
            if let (Some((ah, al)), Some((bh, bl))) = (split_at(a, k), split_at(b, k)) {
                if ah == bh {
                    return concat(ah, ite(c, al, bl));
                }
            }
        }
    }
    intern(Node { op: Op::Ite, w, a: c.0, b: a.0, c: b.0, k: 0 })
}

pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
    match op {
        Op::Add => add(a, b),
        Op::Mul => mul(a, b),
        Op::UDiv | Op::URem | Op::SDiv | Op::SRem => divrem(op, a, b),
        Op::And => and(a, b),
        Op::Or => or(a, b),
        Op::Xor => xor(a, b),
        Op::Shl => shl(a, b),
        Op::LShr => lshr(a, b),
        Op::AShr => ashr(a, b),
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Ule => ule(a, b),
        Op::Slt => slt(a, b),
        Op::Sle => sle(a, b),
        _ => unreachable!(),
    }
}

fn merge(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() || Rc::ptr_eq(a, b) {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            r.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    if r.len() == a.len() {
        return a.clone();
    }
    if r.len() == b.len() {
        return b.clone();
    }
    r.into()
}

/// Sorted list of the variables occurring in `e`.
pub fn vars(e: Ex) -> Rc<[u32]> {
    if let Some(v) = &ar().vars[e.0 as usize] {
        return v.clone();
    }
    let mut stack = vec![e];
    while let Some(&t) = stack.last() {
        if ar().vars[t.0 as usize].is_some() {
            stack.pop();
            continue;
        }
        let n = node(t);
        let kids = children(&n);
        let mut ready = true;
        for k in kids.iter().flatten() {
            if ar().vars[k.0 as usize].is_none() {
                stack.push(*k);
                ready = false;
            }
        }
        if !ready {
            continue;
        }
        let mut r: Rc<[u32]> = match n.op {
            Op::Var => Rc::new([n.a]),
            _ => Rc::new([]),
        };
        for k in kids.iter().flatten() {
            r = merge(&r, ar().vars[k.0 as usize].as_ref().unwrap());
        }
        ar().vars[t.0 as usize] = Some(r);
        stack.pop();
    }
    ar().vars[e.0 as usize].as_ref().unwrap().clone()
}

pub fn children(n: &Node) -> [Option<Ex>; 3] {
    match n.op {
        Op::Const | Op::Var => [None, None, None],
        Op::Extract | Op::SExt => [Some(Ex(n.a)), None, None],
        Op::Ite => [Some(Ex(n.a)), Some(Ex(n.b)), Some(Ex(n.c))],
        _ => [Some(Ex(n.a)), Some(Ex(n.b)), None],
    }
}

/// Evaluates `e` under the assignment `m` (indexed by variable number, default 0).
pub fn eval(e: Ex, m: &[u128]) -> u128 {
    if let Some(k) = as_const(e) {
        return k;
    }
    ar().gen += 1;
    let g = ar().gen;
    eval_gen(e, m, g)
}

pub fn eval_many(es: &[Ex], m: &[u128]) -> Vec<u128> {
    ar().gen += 1;
    let g = ar().gen;
    es.iter().map(|e| eval_gen(*e, m, g)).collect()
}

fn eval_gen(e: Ex, m: &[u128], g: u32) -> u128 {
    let a = ar();
    if a.stamp[e.0 as usize] == g {
        return a.val[e.0 as usize];
    }
    let n = a.nodes[e.0 as usize];
    let v = match n.op {
        Op::Const => n.k,
        Op::Var => m.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
        Op::Ite => {
            if eval_gen(Ex(n.a), m, g) != 0 {
                eval_gen(Ex(n.b), m, g)
            } else {
                eval_gen(Ex(n.c), m, g)
            }
        }
        Op::Concat => {
            let h = eval_gen(Ex(n.a), m, g);
            let l = eval_gen(Ex(n.b), m, g);
            (h << width(Ex(n.b))) | l
        }
        Op::Extract => (eval_gen(Ex(n.a), m, g) >> n.b) & mask(n.w),
        Op::SExt => {
            let x = eval_gen(Ex(n.a), m, g);
            (sext128(x, width(Ex(n.a))) as u128) & mask(n.w)
        }
        Op::Slt | Op::Sle => {
            let w = width(Ex(n.a));
            let x = sext128(eval_gen(Ex(n.a), m, g), w);
            let y = sext128(eval_gen(Ex(n.b), m, g), w);
            (if n.op == Op::Slt { x < y } else { x <= y }) as u128
        }
        Op::And if n.w == 1 => {
            if eval_gen(Ex(n.a), m, g) == 0 {
                0
            } else {
                eval_gen(Ex(n.b), m, g)
            }
        }
        _ => {
            let x = eval_gen(Ex(n.a), m, g);
            let y = eval_gen(Ex(n.b), m, g);
            let w = width(Ex(n.a));
            fold(n.op, w, x, y)
        }
    };
    let a = ar();
    a.stamp[e.0 as usize] = g;
    a.val[e.0 as usize] = v;
    v
}

/// Random terms over a few variables: whatever the constructors simplify to must evaluate to
/// what folding the unsimplified operations gives. Returns the number of terms checked.
pub fn selftest(rounds: u32) -> Result<u64, String> {
    let mut s = 0x9e37_79b9_7f4a_7c15u64;
    let mut rnd = move |n: u64| -> u64 {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    let ws: [u16; 8] = [1, 3, 8, 16, 24, 32, 64, 128];
    let mut vs: Vec<(Ex, usize)> = Vec::new();
    for w in ws {
        for _ in 0..3 {
            let v = new_var(format!("t{}", vs.len()), w);
            let i = node(v).a as usize;
            vs.push((v, i));
        }
    }
    let nv = vs.iter().map(|v| v.1).max().unwrap() + 1;
    let mut checked = 0;
    for round in 0..rounds {
        const K: usize = 6;
        let rv = |rnd: &mut dyn FnMut(u64) -> u64, w: u16| -> u128 {
            let x = (rnd(1 << 40) as u128) << 88 | (rnd(1 << 44) as u128) << 44 | rnd(1 << 44) as u128;
            match rnd(6) {
                0 => 0,
                1 => mask(w),
                2 => 1 & mask(w),
                3 => (x % 300) & mask(w),
                4 => 1u128 << (w - 1),
                _ => x & mask(w),
            }
        };
        let envs: Vec<Vec<u128>> = (0..K)
            .map(|_| {
                let mut e = vec![0; nv];
                for (v, i) in &vs {
                    e[*i] = rv(&mut rnd, width(*v));
                }
                e
            })
            .collect();
        let mut pool: Vec<(Ex, [u128; K], String)> = Vec::new();
        for (v, i) in &vs {
            let mut a = [0; K];
            for k in 0..K {
                a[k] = envs[k][*i];
            }
            pool.push((*v, a, format!("v{}", i)));
        }
        for w in ws {
            for _ in 0..2 {
                let c = rv(&mut rnd, w);
                pool.push((konst(c, w), [c; K], format!("{}:{}", c, w)));
            }
        }
        for _ in 0..60 {
            let i = rnd(pool.len() as u64) as usize;
            let (a, av, an) = pool[i].clone();
            let w = width(a);
            let same: Vec<usize> = (0..pool.len()).filter(|j| width(pool[*j].0) == w).collect();
            let (b, bv, bn) = pool[same[rnd(same.len() as u64) as usize]].clone();
            let ones: Vec<usize> = (0..pool.len()).filter(|j| width(pool[*j].0) == 1).collect();
            let ops = [
                Op::Add, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult,
                Op::Ule, Op::Slt, Op::Sle, Op::UDiv, Op::Eq, Op::Ult, Op::And, Op::Or,
            ];
            let mut v = [0; K];
            let (e, name) = match rnd(10) {
                0 => {
                    let (c, cv, cn) = pool[ones[rnd(ones.len() as u64) as usize]].clone();
                    for k in 0..K {
                        v[k] = if cv[k] != 0 { av[k] } else { bv[k] };
                    }
                    (ite(c, a, b), format!("ite({},{},{})", cn, an, bn))
                }
                1 if w > 1 => {
                    let lo = rnd(w as u64) as u16;
                    let n = 1 + rnd((w - lo) as u64) as u16;
                    for k in 0..K {
                        v[k] = (av[k] >> lo) & mask(n);
                    }
                    (extract(a, lo, n), format!("ext({},{},{})", an, lo, n))
                }
                2 if w < 128 => {
                    let n = w + 1 + rnd((128 - w) as u64) as u16;
                    if rnd(2) == 0 {
                        v = av;
                        (zext(a, n), format!("zext({},{})", an, n))
                    } else {
                        for k in 0..K {
                            v[k] = sext128(av[k], w) as u128 & mask(n);
                        }
                        (sext(a, n), format!("sext({},{})", an, n))
                    }
                }
                3 if w + width(pool[(i * 7) % pool.len()].0) <= 128 => {
                    let (c, cv, cn) = pool[(i * 7) % pool.len()].clone();
                    for k in 0..K {
                        v[k] = av[k] << width(c) | cv[k];
                    }
                    (concat(a, c), format!("cat({},{})", an, cn))
                }
                _ => {
                    let op = ops[rnd(ops.len() as u64) as usize];
                    for k in 0..K {
                        v[k] = match op {
                            Op::Slt => (sext128(av[k], w) < sext128(bv[k], w)) as u128,
                            Op::Sle => (sext128(av[k], w) <= sext128(bv[k], w)) as u128,
                            _ => fold(op, w, av[k], bv[k]),
                        };
                    }
                    (bin(op, a, b), format!("{:?}({},{})", op, an, bn))
                }
            };
            for k in 0..K {
                let got = eval(e, &envs[k]);
                let um = umax(e);
                if got != v[k] || got > um {
                    return Err(format!("round {}: {} = {} but simplified form gives {} (umax {})", round, name, v[k], got, um));
                }
                checked += 1;
            }
            if name.len() < 300 {
                pool.push((e, v, name));
            }
        }
    }
    Ok(checked)
}
