//! Reader for textual LLVM IR as printed by rustc. Function bodies are parsed on first use.

use crate::expr::{mask, Ex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    Void,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u32, Rc<Ty>),
    Float(u16),
    Other,
}

impl Ty {
    /// Bytes written by a store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64).div_ceil(8),
                _ => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    /// Allocation size (distance between array elements).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    o.next_multiple_of(self.align())
                }
            }
            Ty::Void | Ty::Other => 0,
            _ => self.store_size().next_multiple_of(self.align()),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Ex),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    BitCast, // also ptrtoint / inttoptr, which change width like zext/trunc
    PtrInt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Umax,
    Umin,
}

#[derive(Debug)]
pub enum Callee {
    Direct(usize), // index into module functions
    Indirect(Opnd),
}

#[derive(Debug)]
pub struct CallInst {
    pub callee: Callee,
    pub args: Vec<(Ty, Opnd)>,
    pub ret: Ty,
    pub normal: Option<u32>, // invoke: continue there
}

#[derive(Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    Alloca(u64, u64),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    /// constant offset, and (index type width, index, scale)
    Gep(Opnd, u64, Vec<(u16, Opnd, u64)>),
    Phi(Ty, Vec<(u32, Opnd)>),
    Select(Ty, Opnd, Opnd, Opnd, bool),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Ty, Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<u32>, u32),
    Freeze(Opnd),
    Rmw(RmwOp, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Call(Box<CallInst>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst {
    pub dest: u32, // u32::MAX: none
    pub ins: Ins,
    pub dbg: u32,
}
pub const NODEST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub name: String,
}

pub struct Func {
    pub id: usize,
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: usize,
}

pub struct FuncDecl {
    pub name: String,
    pub line: usize, // header line for definitions
    pub end: usize,
    pub defined: bool,
    pub body: RefCell<Option<Rc<Func>>>,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub funcs: Vec<FuncDecl>,
    pub func_by_name: HashMap<String, usize>,
    pub sym_addr: HashMap<String, u64>,
    pub globals: Vec<GlobalDef>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, usize>, // metadata id -> line
}

pub const FUNC_BASE: u64 = 0x7000_0000_0000;
pub const SLOT_SHIFT: u64 = 24;
pub const SLOT_OFF: u64 = 0x1000;

// ------------------------------------------------------------------ lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),
    N(i128),
    L(String), // %name
    G(String), // @name
    Meta(&'static str),
    Str(Vec<u8>),
    P(char),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() && s[i + 2].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            r.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}

pub fn lex(s: &'static str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' | b'!' | b'#' => {
                let mut j = i + 1;
                let name: String;
                if j < b.len() && b[j] == b'"' {
                    let k = j + 1;
                    j = k;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[k..j])).into_owned();
                    j += 1;
                } else {
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                }
                match c {
                    b'%' => out.push(Tok::L(name)),
                    b'@' => out.push(Tok::G(name)),
                    b'!' => out.push(Tok::Meta(&s[i + 1..j])),
                    _ => {}
                }
                i = j;
            }
            b'"' => {
                let k = i + 1;
                let mut j = k;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[k..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let k = i + 2;
                let mut j = k;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[k..j])));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+') {
                    j += 1;
                }
                let t = &s[i..j];
                match t.parse::<i128>() {
                    Ok(n) => out.push(Tok::N(n)),
                    Err(_) => match t.parse::<u128>() {
                        Ok(n) => out.push(Tok::N(n as i128)),
                        Err(_) => out.push(Tok::W(t)),
                    },
                }
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

// ------------------------------------------------------------------ parser

pub struct P<'a> {
    m: &'a Module,
    t: Vec<Tok>,
    i: usize,
    wide: bool,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?}", c, self.peek()))
        }
    }
    fn word(&mut self) -> R<&'static str> {
        match self.next()? {
            Tok::W(w) => Ok(w),
            t => Err(format!("expected word, found {:?}", t)),
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::N(n) => Ok(n),
            t => Err(format!("expected number, found {:?}", t)),
        }
    }
    fn skip_group(&mut self) -> R<()> {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') | Tok::P('[') | Tok::P('{') | Tok::P('<') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') | Tok::P('>') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => int_width(w).is_some() || matches!(*w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "opaque" | "fp128" | "x86_fp80"),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    /// Skips attribute words until a type starts.
    fn skip_to_type(&mut self) -> R<()> {
        while !self.type_start() {
            self.next()?;
            if self.is_p('(') {
                self.skip_group()?;
            }
        }
        Ok(())
    }
    fn ty(&mut self) -> R<Ty> {
        Ok(match self.next()? {
            Tok::W(w) => {
                if let Some(n) = int_width(w) {
                    self.wide |= n > 128;
                    Ty::Int(n)
                } else {
                    match w {
                        "ptr" => {
                            if self.is_w("addrspace") {
                                self.i += 1;
                                self.skip_group()?;
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "half" => Ty::Float(16),
                        "fp128" => Ty::Float(128),
                        "x86_fp80" => Ty::Float(80),
                        "metadata" | "label" | "opaque" => Ty::Other,
                        _ => return Err(format!("type {:?}", w)),
                    }
                }
            }
            Tok::P('[') => {
                let n = self.num()? as u64;
                self.word()?;
                let t = self.ty()?;
                self.want(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.ty_list('}')?;
                    self.want('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()? as u32;
                    self.word()?;
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vector(n, Rc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list('}')?), false),
            Tok::L(n) => self.m.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            t => return Err(format!("type {:?}", t)),
        })
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut r = Vec::new();
        while !self.eat_p(end) {
            r.push(self.ty()?);
            self.eat_p(',');
        }
        Ok(r)
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vector(..) => {
                Val::Agg(Rc::new((0..t.count()).map(|i| self.zero(&t.field(i))).collect()))
            }
            _ => Val::C(0),
        }
    }
    fn typed_const(&mut self) -> R<(Ty, Val)> {
        let t = self.ty()?;
        self.eat_w("noundef");
        let v = self.constant(&t)?;
        Ok((t, v))
    }
    fn const_list(&mut self, end: char) -> R<Val> {
        let mut r = Vec::new();
        while !self.eat_p(end) {
            r.push(self.typed_const()?.1);
            self.eat_p(',');
        }
        Ok(Val::Agg(Rc::new(r)))
    }
    fn c(v: &Val) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            _ => Err("non-scalar constant".into()),
        }
    }
    fn constant(&mut self, t: &Ty) -> R<Val> {
        Ok(match self.next()? {
            Tok::N(n) => match t {
                Ty::Int(w) => Val::C((n as u128) & mask(*w)),
                Ty::Float(_) => Val::C(0),
                _ => return Err("number for non-int".into()),
            },
            Tok::G(g) => Val::C(*self.m.sym_addr.get(&g).ok_or(format!("unknown symbol @{}", g))? as u128),
            Tok::Str(s) => Val::Agg(Rc::new(s.into_iter().map(|b| Val::C(b as u128)).collect())),
            Tok::P('[') => self.const_list(']')?,
            Tok::P('{') => self.const_list('}')?,
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.const_list('}')?;
                    self.want('>')?;
                    v
                } else {
                    self.const_list('>')?
                }
            }
            Tok::W(w) => match w {
                "true" => Val::C(1),
                "false" | "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.want('(')?;
                    let (_, v) = self.typed_const()?;
                    self.want(')')?;
                    Val::Agg(Rc::new(vec![v; t.count()]))
                }
                "getelementptr" => {
                    while let Some(Tok::W(w)) = self.peek() {
                        let w = *w;
                        self.i += 1;
                        if w == "inrange" {
                            self.skip_group()?;
                        }
                    }
                    self.want('(')?;
                    let bt = self.ty()?;
                    self.want(',')?;
                    let (_, base) = self.typed_const()?;
                    let mut a = Self::c(&base)? as u64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(',') {
                        while self.eat_w("inrange") {}
                        let (it, iv) = self.typed_const()?;
                        let iv = crate::expr::sext128(Self::c(&iv)?, it.width()) as i64;
                        if first {
                            a = a.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            a = a.wrapping_add(cur.field_offset(iv as usize));
                            cur = cur.field(iv as usize);
                        }
                    }
                    self.want(')')?;
                    Val::C(a as u128)
                }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" | "addrspacecast" | "sext" => {
                    self.want('(')?;
                    let (_, v) = self.typed_const()?;
                    if !self.eat_w("to") {
                        return Err("to".into());
                    }
                    let t2 = self.ty()?;
                    self.want(')')?;
                    Val::C(Self::c(&v)? & mask(t2.width()))
                }
                "sub" | "add" | "xor" | "mul" => {
                    while self.eat_w("nuw") || self.eat_w("nsw") {}
                    self.want('(')?;
                    let (t1, a) = self.typed_const()?;
                    self.want(',')?;
                    let (_, b) = self.typed_const()?;
                    self.want(')')?;
                    let (a, b) = (Self::c(&a)?, Self::c(&b)?);
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Val::C(r & mask(t1.width()))
                }
                "asm" => Val::C(0),
                _ if matches!(t, Ty::Float(_)) => Val::C(0),
                _ => return Err(format!("constant {:?}", w)),
            },
            t => return Err(format!("constant {:?}", t)),
        })
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label expected".into());
        }
        match self.next()? {
            Tok::L(n) => self.labels.get(&n).copied().ok_or(format!("label %{}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn opnd(&mut self, t: &Ty) -> R<Opnd> {
        if let Some(Tok::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::Reg(self.reg(&n)));
        }
        Ok(Opnd::K(self.constant(t)?))
    }
    fn typed(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
    fn opnd_start(&self) -> bool {
        match self.peek() {
            Some(Tok::L(_)) | Some(Tok::G(_)) | Some(Tok::N(_)) | Some(Tok::P(_)) | Some(Tok::Str(_)) | None => true,
            Some(Tok::Meta(_)) => true,
            Some(Tok::W(w)) => matches!(
                *w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "asm" | "none" | "mul" | "zext" | "bitcast"
            ) || w.starts_with("0x"),
        }
    }
    fn arg(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        if t == Ty::Other {
            // metadata argument
            let mut d = 0;
            loop {
                match self.peek() {
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Some(Tok::P(',')) if d == 0 => break,
                    None => break,
                    _ => {}
                }
                self.i += 1;
            }
            return Ok((t, Opnd::K(Val::C(0))));
        }
        while !self.opnd_start() {
            let w = self.word()?;
            if self.is_p('(') {
                self.skip_group()?;
            } else if w == "align" {
                self.num()?;
            }
        }
        let o = self.opnd(&t)?;
        Ok((t, o))
    }

    fn call(&mut self, invoke: bool) -> R<Ins> {
        self.skip_to_type()?;
        let ret = self.ty()?;
        if self.is_p('(') {
            self.skip_group()?;
        }
        if self.eat_w("asm") {
            return Ok(Ins::Unsupported("inline asm".into()));
        }
        let callee = match self.next()? {
            Tok::G(n) => match self.m.func_by_name.get(&n) {
                Some(&i) => Callee::Direct(i),
                None => return Err(format!("callee @{}", n)),
            },
            Tok::L(n) => Callee::Indirect(Opnd::Reg(self.reg(&n))),
            Tok::W(_) => {
                self.i -= 1;
                Callee::Indirect(Opnd::K(self.constant(&Ty::Ptr)?))
            }
            t => return Err(format!("callee {:?}", t)),
        };
        self.want('(')?;
        let mut args = Vec::new();
        while !self.eat_p(')') {
            args.push(self.arg()?);
            self.eat_p(',');
        }
        let mut normal = None;
        if invoke {
            while !self.is_w("to") {
                self.next()?;
            }
            self.i += 1;
            normal = Some(self.label()?);
        }
        Ok(Ins::Call(Box::new(CallInst { callee, args, ret, normal })))
    }

    fn indices(&mut self) -> R<Vec<u32>> {
        let mut r = Vec::new();
        while self.is_p(',') && matches!(self.at(1), Some(Tok::N(_))) {
            self.i += 1;
            r.push(self.num()? as u32);
        }
        Ok(r)
    }

    fn inst(&mut self) -> R<(u32, Ins)> {
        let mut dest = NODEST;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (self.peek().cloned(), self.at(1)) {
            dest = self.reg(&n);
            self.i += 2;
        }
        let op = self.word()?;
        let bin = |o| Some(o);
        let b = match op {
            "add" => bin(BinOp::Add),
            "sub" => bin(BinOp::Sub),
            "mul" => bin(BinOp::Mul),
            "udiv" => bin(BinOp::UDiv),
            "urem" => bin(BinOp::URem),
            "sdiv" => bin(BinOp::SDiv),
            "srem" => bin(BinOp::SRem),
            "and" => bin(BinOp::And),
            "or" => bin(BinOp::Or),
            "xor" => bin(BinOp::Xor),
            "shl" => bin(BinOp::Shl),
            "lshr" => bin(BinOp::LShr),
            "ashr" => bin(BinOp::AShr),
            _ => None,
        };
        if let Some(b) = b {
            self.skip_to_type()?;
            let t = self.ty()?;
            let x = self.opnd(&t)?;
            self.want(',')?;
            let y = self.opnd(&t)?;
            return Ok((dest, Ins::Bin(b, t, x, y)));
        }
        let ins = match op {
            "icmp" => {
                self.eat_w("samesign");
                let p = match self.word()? {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    w => return Err(format!("icmp {}", w)),
                };
                let t = self.ty()?;
                let x = self.opnd(&t)?;
                self.want(',')?;
                let y = self.opnd(&t)?;
                Ins::Icmp(p, t, x, y)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.skip_to_type()?;
                let (t, x) = self.typed()?;
                if !self.eat_w("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                let c = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::BitCast,
                    _ => CastOp::PtrInt,
                };
                Ins::Cast(c, t, x, t2)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1u64;
                let mut align = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        align = self.num()? as u64;
                    } else if let Some(Tok::Meta(_)) = self.peek() {
                        break;
                    } else {
                        let (_, v) = self.typed_const()?;
                        n = Self::c(&v)? as u64;
                    }
                }
                Ins::Alloca(t.size() * n, align)
            }
            "load" => {
                while self.eat_w("atomic") || self.eat_w("volatile") {}
                let t = self.ty()?;
                self.want(',')?;
                let (_, p) = self.typed()?;
                Ins::Load(t, p)
            }
            "store" => {
                while self.eat_w("atomic") || self.eat_w("volatile") {}
                let (t, v) = self.typed()?;
                self.want(',')?;
                let (_, p) = self.typed()?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_to_type()?;
                let bt = self.ty()?;
                self.want(',')?;
                let (_, base) = self.typed()?;
                let mut off = 0u64;
                let mut dynv = Vec::new();
                let mut cur = bt;
                let mut first = true;
                while self.is_p(',') && !matches!(self.at(1), Some(Tok::Meta(_))) {
                    self.i += 1;
                    let (it, iv) = self.typed()?;
                    let scale = if first { cur.size() } else { 0 };
                    match &iv {
                        Opnd::K(Val::C(c)) => {
                            let c = crate::expr::sext128(*c, it.width()) as i64;
                            if first {
                                off = off.wrapping_add((c as u64).wrapping_mul(scale));
                            } else {
                                off = off.wrapping_add(cur.field_offset(c as usize));
                                cur = cur.field(c as usize);
                            }
                        }
                        _ => {
                            if first {
                                dynv.push((it.width(), iv, scale));
                            } else {
                                let s = cur.field(0).size();
                                dynv.push((it.width(), iv, s));
                                cur = cur.field(0);
                            }
                        }
                    }
                    first = false;
                }
                Ins::Gep(base, off, dynv)
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = Vec::new();
                loop {
                    self.want('[')?;
                    let o = self.opnd(&t)?;
                    self.want(',')?;
                    let l = match self.next()? {
                        Tok::L(n) => *self.labels.get(&n).ok_or(format!("phi label %{}", n))?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.want(']')?;
                    v.push((l, o));
                    if self.is_p(',') && self.at(1) == Some(&Tok::P('[')) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "select" => {
                let (ct, c) = self.typed()?;
                self.want(',')?;
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, b) = self.typed()?;
                Ins::Select(t, c, a, b, matches!(ct, Ty::Vector(..)))
            }
            "extractvalue" => {
                let (_, a) = self.typed()?;
                let ix = self.indices()?;
                Ins::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, v) = self.typed()?;
                let ix = self.indices()?;
                Ins::InsertValue(t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.typed()?;
                self.want(',')?;
                let (_, i) = self.typed()?;
                Ins::ExtractElement(a, i)
            }
            "insertelement" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, v) = self.typed()?;
                self.want(',')?;
                let (_, i) = self.typed()?;
                Ins::InsertElement(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed()?;
                self.want(',')?;
                let (_, b) = self.typed()?;
                self.want(',')?;
                let (_, mk) = self.typed_const()?;
                let idx = match mk {
                    Val::Agg(v) => v.iter().map(|x| Self::c(x).map(|c| c as u32)).collect::<R<Vec<_>>>()?,
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle(a, b, idx, t.count() as u32)
            }
            "freeze" => Ins::Freeze(self.typed()?.1),
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.word()? {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "umax" => RmwOp::Umax,
                    "umin" => RmwOp::Umin,
                    w => return Ok((dest, Ins::Unsupported(format!("atomicrmw {}", w)))),
                };
                let (_, p) = self.typed()?;
                self.want(',')?;
                let (t, v) = self.typed()?;
                Ins::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let (_, p) = self.typed()?;
                self.want(',')?;
                let (t, c) = self.typed()?;
                self.want(',')?;
                let (_, n) = self.typed()?;
                Ins::CmpXchg(t, p, c, n)
            }
            "fence" => Ins::Fence,
            "tail" | "musttail" | "notail" => {
                self.word()?;
                self.call(false)?
            }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "br" => {
                if self.is_w("label") {
                    Ins::Br(self.label()?)
                } else {
                    let (_, c) = self.typed()?;
                    self.want(',')?;
                    let a = self.label()?;
                    self.want(',')?;
                    let b = self.label()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.want(',')?;
                let d = self.label()?;
                self.want('[')?;
                let mut cases = Vec::new();
                while !self.eat_p(']') {
                    let (_, k) = self.typed_const()?;
                    self.want(',')?;
                    let l = self.label()?;
                    cases.push((Self::c(&k)?, l));
                }
                Ins::Switch(t, v, d, cases)
            }
            "ret" => {
                if self.eat_w("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.typed()?.1))
                }
            }
            "unreachable" => Ins::Unreachable,
            w => Ins::Unsupported(w.to_string()),
        };
        if std::mem::take(&mut self.wide) {
            return Ok((dest, Ins::Unsupported("integers of more than 128 bits".into())));
        }
        Ok((dest, ins))
    }
}

fn int_width(w: &str) -> Option<u16> {
    let r = w.strip_prefix('i')?;
    if r.is_empty() || !r.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    r.parse().ok()
}

fn find_name(line: &str) -> Option<(String, usize)> {
    // name after the first '@'
    let p = line.find('@')?;
    let b = line.as_bytes();
    if b[p + 1] == b'"' {
        let e = line[p + 2..].find('"')? + p + 2;
        Some((line[p + 2..e].to_string(), e + 1))
    } else {
        let mut j = p + 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1;
        }
        Some((line[p + 1..j].to_string(), j))
    }
}

fn strip_dbg(toks: &mut Vec<Tok>) -> u32 {
    // trailing ", !dbg !123"
    for i in (0..toks.len()).rev() {
        if let Tok::Meta("dbg") = toks[i] {
            if let Some(Tok::Meta(n)) = toks.get(i + 1) {
                return n.parse().unwrap_or(0);
            }
        }
    }
    0
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            funcs: Vec::new(),
            func_by_name: HashMap::new(),
            sym_addr: HashMap::new(),
            globals: Vec::new(),
            types: HashMap::new(),
            meta: HashMap::new(),
        };
        let mut i = 0;
        let mut globs: Vec<(usize, usize)> = Vec::new();
        let mut aliases: Vec<(String, usize, usize)> = Vec::new();
        while i < m.lines.len() {
            let l = m.lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let (name, _) = find_name(l).ok_or("function name")?;
                let id = m.funcs.len();
                let defined = l.starts_with("define ");
                let start = i;
                if defined {
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                }
                m.sym_addr.insert(name.clone(), FUNC_BASE + 16 * id as u64);
                m.func_by_name.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, line: start, end: i, defined, body: RefCell::new(None) });
            } else if l.starts_with('@') {
                let (name, e) = find_name(l).ok_or("global name")?;
                if l.contains(" alias ") {
                    aliases.push((name, i, e));
                } else {
                    let id = m.globals.len();
                    m.sym_addr.insert(name.clone(), ((id as u64 + 1) << SLOT_SHIFT) + SLOT_OFF);
                    m.globals.push(GlobalDef { name, addr: ((id as u64 + 1) << SLOT_SHIFT) + SLOT_OFF, size: 0, constant: false, data: Vec::new() });
                    globs.push((i, e));
                }
            } else if l.starts_with('%') {
                // named type
                let t: Vec<Tok> = lex(l);
                if let Tok::L(n) = &t[0] {
                    let n = n.clone();
                    let ty = {
                        let mut p = P { m: &m, t, i: 3, wide: false, regs: HashMap::new(), labels: HashMap::new() };
                        p.ty()?
                    };
                    m.types.insert(n, ty);
                }
            } else if l.starts_with('!') {
                if let Some(e) = l.find(" = ") {
                    if let Ok(n) = l[1..e].parse::<u32>() {
                        m.meta.insert(n, i);
                    }
                }
            }
            i += 1;
        }
        for (name, li, _) in &aliases {
            // @a = alias ty, ptr @b
            let l = m.lines[*li];
            let p = l.rfind('@').unwrap();
            let (t, _) = find_name(&l[p..]).ok_or("alias")?;
            let a = *m.sym_addr.get(&t).ok_or("alias target")?;
            m.sym_addr.insert(name.clone(), a);
            if let Some(&f) = m.func_by_name.get(&t) {
                m.func_by_name.insert(name.clone(), f);
            }
        }
        for (g, (li, e)) in globs.iter().enumerate() {
            let l: &'static str = m.lines[*li];
            let toks = lex(&l[*e..]);
            let (constant, ty, val) = {
                let mut p = P { m: &m, t: toks, i: 0, wide: false, regs: HashMap::new(), labels: HashMap::new() };
                let mut constant = false;
                let mut external = false;
                loop {
                    match p.peek() {
                        Some(Tok::W("constant")) => {
                            constant = true;
                            p.i += 1;
                            break;
                        }
                        Some(Tok::W("global")) => {
                            p.i += 1;
                            break;
                        }
                        Some(Tok::W("external")) | Some(Tok::W("extern_weak")) => {
                            external = true;
                            p.i += 1;
                        }
                        None => return Err(format!("global line {}", l)),
                        _ => p.i += 1,
                    }
                }
                let ty = p.ty().map_err(|e| format!("{}: {}", e, l))?;
                let val = if external { None } else { Some(p.constant(&ty).map_err(|e| format!("{}: {}", e, l))?) };
                (constant, ty, val)
            };
            let size = ty.size().max(ty.store_size());
            let mut data = vec![0u8; size as usize];
            if let Some(v) = &val {
                flatten(&ty, v, 0, &mut data)?;
            }
            let gd = &mut m.globals[g];
            gd.size = size;
            gd.constant = constant;
            gd.data = data;
        }
        Ok(m)
    }

    pub fn func(&self, id: usize) -> R<Rc<Func>> {
        if let Some(f) = self.funcs[id].body.borrow().as_ref() {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(id).map_err(|e| format!("{}: {}", self.funcs[id].name, e))?);
        *self.funcs[id].body.borrow_mut() = Some(f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: usize) -> R<Func> {
        let d = &self.funcs[id];
        let header = self.lines[d.line];
        let (_, e) = find_name(header).unwrap();
        let mut p = P { m: self, t: lex(&header[e..]), i: 0, wide: false, regs: HashMap::new(), labels: HashMap::new() };
        p.want('(')?;
        let mut params = Vec::new();
        let mut unnamed = 0;
        while !p.eat_p(')') {
            if matches!(p.peek(), Some(Tok::W("..."))) {
                p.i += 1;
                continue;
            }
            p.ty()?;
            loop {
                match p.peek() {
                    Some(Tok::L(_)) | Some(Tok::P(',')) | Some(Tok::P(')')) => break,
                    Some(Tok::P('(')) => p.skip_group()?,
                    _ => p.i += 1,
                }
            }
            let name = if let Some(Tok::L(n)) = p.peek() {
                let n = n.clone();
                p.i += 1;
                n
            } else {
                format!("{}", unnamed)
            };
            if name == format!("{}", unnamed) {
                unnamed += 1;
            }
            let r = p.reg(&name);
            params.push(r);
            p.eat_p(',');
        }
        // labels
        let mut blocks: Vec<Block> = Vec::new();
        let body = &self.lines[d.line + 1..d.end];
        let label_of = |l: &'static str| -> Option<String> {
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b' ' || b[0] == b'\t' || b[0] == b';' {
                return None;
            }
            if b[0] == b'"' {
                let e = l[1..].find('"')? + 1;
                return Some(l[1..e].to_string());
            }
            let e = l.find(':')?;
            Some(l[..e].to_string())
        };
        let mut first = true;
        for l in body {
            if let Some(n) = label_of(l) {
                p.labels.insert(n.clone(), blocks.len() as u32);
                blocks.push(Block { insts: Vec::new(), name: n });
                first = false;
            } else if first && !l.trim().is_empty() && !l.trim_start().starts_with(';') {
                let n = format!("{}", unnamed);
                p.labels.insert(n.clone(), 0);
                blocks.push(Block { insts: Vec::new(), name: n });
                first = false;
            }
        }
        let mut cur: isize = -1;
        let mut k = 0;
        while k < body.len() {
            let l = body[k];
            k += 1;
            let tr = l.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with('#') {
                continue;
            }
            if label_of(l).is_some() {
                cur += 1;
                continue;
            }
            if cur < 0 {
                cur = 0;
            }
            if tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
                continue;
            }
            let mut toks = lex(l);
            if tr.starts_with("switch ") {
                while !toks.contains(&Tok::P(']')) || toks.iter().filter(|t| **t == Tok::P('[')).count() > toks.iter().filter(|t| **t == Tok::P(']')).count() {
                    toks.extend(lex(body[k]));
                    k += 1;
                }
            } else if toks.iter().take(4).any(|t| *t == Tok::W("invoke")) {
                toks.extend(lex(body[k]));
                k += 1;
            }
            let dbg = strip_dbg(&mut toks);
            p.t = toks;
            p.i = 0;
            let (dest, ins) = p.inst().map_err(|e| format!("{} in {:?}", e, l))?;
            blocks[cur as usize].insts.push(Inst { dest, ins, dbg });
        }
        Ok(Func { id, name: d.name.clone(), params, blocks, nregs: p.regs.len() })
    }
}

pub fn flatten(ty: &Ty, v: &Val, off: usize, out: &mut [u8]) -> R<()> {
    match (ty, v) {
        (Ty::Vector(n, t), Val::Agg(xs)) if matches!(**t, Ty::Int(w) if w % 8 != 0) => {
            let _ = (n, xs);
            Err("bit vector constant".into())
        }
        (Ty::Arr(..) | Ty::Struct(..) | Ty::Vector(..), Val::Agg(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                flatten(&ty.field(i), x, off + ty.field_offset(i) as usize, out)?;
            }
            Ok(())
        }
        (_, Val::C(c)) => {
            let n = ty.store_size() as usize;
            for i in 0..n {
                out[off + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
            }
            Ok(())
        }
        _ => Err("global initialiser".into()),
    }
}
