//! Reader for the textual LLVM IR that rustc emits (one module, after fat LTO).
//! Function bodies are parsed on first use.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Other,
}

pub type TyR = Rc<Ty>;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Void | Ty::Other => 1,
        }
    }
    /// store size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.alloc(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.alloc();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Void | Ty::Other => 0,
        }
    }
    /// allocation size (size rounded up to alignment)
    pub fn alloc(&self) -> u64 {
        let a = self.align();
        (self.size() + a - 1) / a * a
    }
    pub fn field_off(&self, i: usize) -> (u64, TyR) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.alloc();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i as u64 * t.alloc(), t.clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), t.clone()),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
}

/// Constant value.
#[derive(Debug, Clone, PartialEq)]
pub enum CV {
    Int(u128),
    Undef,
    Agg(Vec<CV>),
}

#[derive(Debug, Clone)]
pub enum Op {
    Reg(u32),
    C(CV),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPTrunc,
    FPExt,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Direct(Rc<str>),
    Ind(Op),
}

#[derive(Debug, Clone)]
pub enum I {
    Bin(BinK, TyR, Op, Op),
    FNeg(TyR, Op),
    ICmp(Rc<str>, TyR, Op, Op),
    FCmp(Rc<str>, TyR, Op, Op),
    Cast(CastK, TyR, Op, TyR),
    /// base pointer, constant offset, (index operand, index width, scale)
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    Load(TyR, Op),
    Store(TyR, Op, Op),
    Alloca(u64, u64),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(TyR, Op)>),
    Unreachable,
    Resume,
    Select(TyR, Op, Op, Op, bool),
    Call(TyR, Callee, Vec<(TyR, Op)>, Option<u32>), // normal successor for invoke
    ExtractValue(Op, Vec<u32>),
    InsertValue(TyR, Op, Op, Vec<u32>),
    ExtractElement(TyR, Op, Op),
    InsertElement(TyR, Op, Op, Op),
    Shuffle(TyR, Op, Op, Vec<Option<u32>>),
    Freeze(Op),
    CmpXchg(TyR, Op, Op, Op),
    AtomicRmw(Rc<str>, TyR, Op, Op),
    Fence,
    LandingPad,
    Unsupported(String),
}

#[derive(Debug, Clone)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
}

#[derive(Debug, Clone)]
pub struct Phi {
    pub dst: u32,
    pub ty: TyR,
    pub inc: Vec<(u32, Op)>, // (pred block, value)
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub succs: Vec<u32>,
    pub npreds: u32,
    /// loops containing the block, outermost first: header order numbers
    pub loops: Vec<u32>,
    pub pos: u32,
    pub is_header: bool,
    pub live_in: Vec<u64>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub params: Vec<(TyR, Option<u32>)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: TyR,
    /// per loop (header position): phis that are, or flow directly into, the header's phis
    pub ctl: HashMap<u32, Vec<u32>>,
    pub regnames: Vec<String>,
}

pub struct GlobalDef {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Option<Vec<InitByte>>,
    pub line: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum InitByte {
    B(u8),
    U,
}

pub struct Module {
    pub lines: Vec<String>,
    pub funcs: HashMap<Rc<str>, usize>, // name -> define line
    pub globals: HashMap<Rc<str>, usize>, // name -> line
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub types: HashMap<String, usize>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub gdefs: Vec<GlobalDef>,
    pub next_gaddr: u64,
    pub faddr: HashMap<Rc<str>, u64>,
    pub fnames: HashMap<u64, Rc<str>>,
    pub next_faddr: u64,
    pub parsed: HashMap<Rc<str>, Rc<Func>>,
    pub md: HashMap<u32, usize>,
    pub tyconst: TyCache,
}

pub struct TyCache {
    ints: HashMap<u32, TyR>,
    ptr: TyR,
    void: TyR,
    float: TyR,
    double: TyR,
    other: TyR,
}

impl TyCache {
    fn new() -> Self {
        TyCache {
            ints: HashMap::new(),
            ptr: Rc::new(Ty::Ptr),
            void: Rc::new(Ty::Void),
            float: Rc::new(Ty::Float),
            double: Rc::new(Ty::Double),
            other: Rc::new(Ty::Other),
        }
    }
    pub fn int(&mut self, w: u32) -> TyR {
        self.ints
            .entry(w)
            .or_insert_with(|| Rc::new(Ty::Int(w)))
            .clone()
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Local(String),
    Global(String),
    Num(String),
    CStr(Vec<u8>),
    Meta(String),
    P(char),
    Attr, // #123
    Eof,
}

fn unquote(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = |k: usize| b.get(k).and_then(|c| (*c as char).to_digit(16));
            if let (Some(a), Some(c)) = (h(i + 1), h(i + 2)) {
                out.push((a * 16 + c) as u8);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
            i += 1;
        } else if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'%' || c == b'@' {
            let (name, ni) = if i + 1 < b.len() && b[i + 1] == b'"' {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                (
                    String::from_utf8_lossy(&unquote(&s[st..j])).into_owned(),
                    j + 1,
                )
            } else {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                (s[st..j].to_string(), j)
            };
            v.push(if c == b'%' {
                Tok::Local(name)
            } else {
                Tok::Global(name)
            });
            i = ni;
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            let st = i + 2;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            v.push(Tok::CStr(unquote(&s[st..j])));
            i = j + 1;
        } else if c == b'"' {
            let st = i + 1;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            v.push(Tok::Id(s[st..j].to_string()));
            i = j + 1;
        } else if c == b'!' {
            let st = i + 1;
            let mut j = st;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tok::Meta(s[st..j].to_string()));
            i = j;
        } else if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            v.push(Tok::Attr);
            i = j;
        } else if c.is_ascii_digit()
            || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
        {
            let st = i;
            let mut j = i + 1;
            while j < b.len()
                && (b[j].is_ascii_alphanumeric()
                    || b[j] == b'.'
                    || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E')))
            {
                j += 1;
            }
            v.push(Tok::Num(s[st..j].to_string()));
            i = j;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' {
            let st = i;
            let mut j = i;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tok::Id(s[st..j].to_string()));
            i = j;
        } else {
            v.push(Tok::P(c as char));
            i += 1;
        }
    }
    v.push(Tok::Eof);
    v
}

fn parse_num(s: &str, t: &Ty) -> Result<u128, String> {
    match t {
        Ty::Float | Ty::Double => {
            let d: f64 = if let Some(h) = s.strip_prefix("0x") {
                f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{s}: {e}"))?)
            } else {
                s.parse().map_err(|e| format!("float {s}: {e}"))?
            };
            Ok(match t {
                Ty::Float => (d as f32).to_bits() as u128,
                _ => d.to_bits() as u128,
            })
        }
        Ty::Int(w) => {
            let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
            if let Some(n) = s.strip_prefix('-') {
                let v: u128 = n.parse().map_err(|e| format!("num {s}: {e}"))?;
                Ok(v.wrapping_neg() & m)
            } else {
                let v: u128 = s.parse().map_err(|e| format!("num {s}: {e}"))?;
                Ok(v & m)
            }
        }
        _ => Err(format!("number {s} of type {t:?}")),
    }
}

struct P<'a> {
    t: Vec<Tok>,
    p: usize,
    m: &'a mut Module,
    regs: Option<&'a mut HashMap<String, u32>>,
    /// (offset-relative) pointer relocs are resolved to concrete addresses
    dbg: u32,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.p]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.p].clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn is(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?} at {}", self.peek(), self.p))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => {
                matches!(
                    s.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "token"
                ) || (s.len() > 1
                    && s.starts_with('i')
                    && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<TyR> {
        match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ok(self.m.tyconst.void.clone()),
                "ptr" => {
                    if self.is_id("addrspace") {
                        return Err("addrspace".into());
                    }
                    Ok(self.m.tyconst.ptr.clone())
                }
                "float" => Ok(self.m.tyconst.float.clone()),
                "double" => Ok(self.m.tyconst.double.clone()),
                "label" | "metadata" | "half" | "x86_fp80" | "fp128" | "token" => {
                    Ok(self.m.tyconst.other.clone())
                }
                _ if s.starts_with('i') => {
                    let w: u32 = s[1..].parse().map_err(|_| format!("type {s}"))?;
                    Ok(self.m.tyconst.int(w))
                }
                _ => Err(format!("type {s}")),
            },
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty()?);
                    self.eat(',');
                }
                Ok(Rc::new(Ty::Struct(v, false)))
            }
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Rc::new(Ty::Arr(n, t)))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    Ok(Rc::new(Ty::Struct(v, true)))
                } else {
                    let n = self.num()?;
                    if !self.eat_id("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty()?;
                    self.expect('>')?;
                    Ok(Rc::new(Ty::Vec(n, t)))
                }
            }
            Tok::Local(n) => {
                let Some(&l) = self.m.types.get(&n) else {
                    return Err(format!("named type {n}"));
                };
                let s = self.m.lines[l].clone();
                let toks = lex(s.splitn(2, " type ").nth(1).ok_or("type def")?);
                let mut p = P {
                    t: toks,
                    p: 0,
                    m: self.m,
                    regs: None,
                    dbg: 0,
                };
                p.ty()
            }
            t => Err(format!("type token {t:?}")),
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next() {
            Tok::Num(s) => s.parse().map_err(|_| format!("num {s}")),
            t => Err(format!("num {t:?}")),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => return Err("eof in parens".into()),
                _ => {}
            }
        }
        Ok(())
    }
    /// skip parameter / return attributes before a type or before a value
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Tok::Id(s) => {
                    let s = s.clone();
                    if self.at_type() {
                        return Ok(());
                    }
                    match s.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer"
                        | "none" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "sub" | "add"
                        | "trunc" | "bitcast" | "splat" | "asm" | "blockaddress" | "xor" | "mul"
                        | "shl" | "addrspacecast" | "dso_local_equivalent" | "no_cfi" => return Ok(()),
                        "align" => {
                            self.next();
                            if self.is('(') {
                                self.skip_parens()?;
                            } else if matches!(self.peek(), Tok::Num(_)) {
                                self.next();
                            }
                        }
                        _ => {
                            self.next();
                            if self.is('(') {
                                self.skip_parens()?;
                            }
                        }
                    }
                }
                Tok::Attr => {
                    self.next();
                }
                _ => return Ok(()),
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().expect("local outside function");
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn val(&mut self, t: &TyR) -> R<Op> {
        if let Tok::Local(n) = self.peek() {
            let n = n.clone();
            self.next();
            return Ok(Op::Reg(self.reg(&n)));
        }
        Ok(Op::C(self.cval(t)?))
    }
    fn cval(&mut self, t: &TyR) -> R<CV> {
        match self.next() {
            Tok::Num(s) => Ok(CV::Int(parse_num(&s, t)?)),
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(CV::Int(1)),
                "false" => Ok(CV::Int(0)),
                "null" | "none" => Ok(CV::Int(0)),
                "undef" | "poison" => Ok(undef_of(t)),
                "zeroinitializer" => Ok(zero_of(t)),
                "splat" => {
                    self.expect('(')?;
                    let et = self.ty()?;
                    let v = self.cval(&et)?;
                    self.expect(')')?;
                    match &**t {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => Ok(CV::Agg(vec![v; *n as usize])),
                        _ => Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while !self.is('(') {
                        self.next();
                    }
                    // possible inrange(...) attr
                    self.expect('(')?;
                    if self.is('-') || matches!(self.peek(), Tok::Num(_)) {
                        // inrange(-a, b) consumed name; skip and take real parens
                        while !self.eat(')') {
                            self.next();
                        }
                        while !self.eat('(') {
                            self.next();
                        }
                    }
                    let bt = self.ty()?;
                    self.expect(',')?;
                    let pt = self.ty()?;
                    let CV::Int(base) = self.cval(&pt)? else {
                        return Err("gep base".into());
                    };
                    let mut off = 0i64;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eat(',') {
                        self.eat_id("inrange");
                        let it = self.ty()?;
                        let CV::Int(iv) = self.cval(&it)? else {
                            return Err("gep idx".into());
                        };
                        let w = it.bits();
                        let sv = sext(iv, w);
                        if first {
                            off += sv as i64 * bt.alloc() as i64;
                            first = false;
                        } else {
                            match &*cur.clone() {
                                Ty::Struct(..) => {
                                    let (o, ft) = cur.field_off(sv as usize);
                                    off += o as i64;
                                    cur = ft;
                                }
                                Ty::Arr(_, et) => {
                                    off += sv as i64 * et.alloc() as i64;
                                    cur = et.clone();
                                }
                                _ => return Err("gep const type".into()),
                            }
                        }
                    }
                    self.expect(')')?;
                    Ok(CV::Int((base as u64).wrapping_add(off as u64) as u128))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.expect('(')?;
                    let ft = self.ty()?;
                    let v = self.cval(&ft)?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.expect(')')?;
                    let CV::Int(x) = v else { return Ok(v) };
                    if tt.is_scalar() {
                        let w = tt.bits();
                        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                        Ok(CV::Int(x & m))
                    } else {
                        Err("const cast to aggregate".into())
                    }
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    self.eat_id("nuw");
                    self.eat_id("nsw");
                    self.expect('(')?;
                    let ta = self.ty()?;
                    let a = self.cval(&ta)?;
                    self.expect(',')?;
                    let tb = self.ty()?;
                    let b = self.cval(&tb)?;
                    self.expect(')')?;
                    let (CV::Int(a), CV::Int(b)) = (a, b) else {
                        return Err("const bin".into());
                    };
                    let w = ta.bits();
                    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    Ok(CV::Int(
                        match s.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            _ => a << b,
                        } & m,
                    ))
                }
                _ => Err(format!("const {s}")),
            },
            Tok::Global(n) => {
                let n: Rc<str> = n.into();
                Ok(CV::Int(self.m.addr_of(&n)? as u128))
            }
            Tok::CStr(b) => Ok(CV::Agg(b.iter().map(|&x| CV::Int(x as u128)).collect())),
            Tok::P('<') => {
                if self.eat('{') {
                    let v = self.agg_list('}')?;
                    self.expect('>')?;
                    Ok(CV::Agg(v))
                } else {
                    let v = self.agg_list('>')?;
                    Ok(CV::Agg(v))
                }
            }
            Tok::P('{') => Ok(CV::Agg(self.agg_list('}')?)),
            Tok::P('[') => Ok(CV::Agg(self.agg_list(']')?)),
            t => Err(format!("const token {t:?}")),
        }
    }
    fn agg_list(&mut self, close: char) -> R<Vec<CV>> {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty()?;
            v.push(self.cval(&t)?);
            self.eat(',');
        }
        Ok(v)
    }
    /// trailing `, !dbg !N` etc.
    fn trailer(&mut self) {
        while *self.peek() != Tok::Eof {
            if let Tok::Meta(s) = self.peek() {
                if s == "dbg" {
                    self.next();
                    if let Tok::Meta(n) = self.peek() {
                        self.dbg = n.parse().unwrap_or(0);
                    }
                    continue;
                }
            }
            self.next();
        }
    }
}

pub fn undef_of(t: &TyR) -> CV {
    match &**t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => CV::Agg(vec![undef_of(e); *n as usize]),
        Ty::Struct(fs, _) => CV::Agg(fs.iter().map(undef_of).collect()),
        _ => CV::Undef,
    }
}
pub fn zero_of(t: &TyR) -> CV {
    match &**t {
        Ty::Arr(n, e) | Ty::Vec(n, e) => CV::Agg(vec![zero_of(e); *n as usize]),
        Ty::Struct(fs, _) => CV::Agg(fs.iter().map(zero_of).collect()),
        _ => CV::Int(0),
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        drop(text);
        let mut m = Module {
            lines: vec![],
            funcs: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            gaddr: HashMap::new(),
            gdefs: vec![],
            next_gaddr: 0x1_0000_0000,
            faddr: HashMap::new(),
            fnames: HashMap::new(),
            next_faddr: 0x40_0000,
            parsed: HashMap::new(),
            md: HashMap::new(),
            tyconst: TyCache::new(),
        };
        let gname = |l: &str| -> Option<(String, usize)> {
            let b = l.as_bytes();
            let at = l.find('@')?;
            if b.get(at + 1) == Some(&b'"') {
                let e = l[at + 2..].find('"')? + at + 2;
                Some((
                    String::from_utf8_lossy(&unquote(&l[at + 2..e])).into_owned(),
                    e + 1,
                ))
            } else {
                let mut j = at + 1;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-'))
                {
                    j += 1;
                }
                Some((l[at + 1..j].to_string(), j))
            }
        };
        for (i, l) in lines.iter().enumerate() {
            if l.starts_with("define") {
                if let Some((n, _)) = gname(l) {
                    m.funcs.insert(n.into(), i);
                }
            } else if l.starts_with('@') {
                if let Some((n, e)) = gname(l) {
                    let rest = &l[e..];
                    if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                        if let Some(k) = rest.rfind('@') {
                            if let Some((tn, _)) = gname(&rest[k..]) {
                                m.aliases.insert(n.into(), tn.into());
                            }
                        }
                    } else {
                        m.globals.insert(n.into(), i);
                    }
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let n = l[1..].split(' ').next().unwrap().trim_matches('"');
                m.types.insert(n.to_string(), i);
            } else if l.starts_with('!') {
                if let Some(k) = l.find(" = ") {
                    if let Ok(n) = l[1..k].parse::<u32>() {
                        m.md.insert(n, i);
                    }
                }
            }
        }
        m.lines = lines;
        Ok(m)
    }

    pub fn func_addr(&mut self, n: &Rc<str>) -> u64 {
        if let Some(&a) = self.faddr.get(n) {
            return a;
        }
        let a = self.next_faddr;
        self.next_faddr += 16;
        self.faddr.insert(n.clone(), a);
        self.fnames.insert(a, n.clone());
        a
    }

    pub fn addr_of(&mut self, n: &Rc<str>) -> R<u64> {
        if let Some(a) = self.aliases.get(n) {
            let a = a.clone();
            return self.addr_of(&a);
        }
        if self.funcs.contains_key(n) || !self.globals.contains_key(n) {
            return Ok(self.func_addr(n));
        }
        if let Some(&a) = self.gaddr.get(n) {
            return Ok(a);
        }
        let line = self.globals[n];
        // type first (for size), initialiser lazily
        let s = self.lines[line].clone();
        let (toks, constant, ext) = Self::global_header(&s)?;
        let mut p = P {
            t: toks,
            p: 0,
            m: self,
            regs: None,
            dbg: 0,
        };
        let t = p.ty()?;
        let size = t.alloc().max(1);
        let a = (self.next_gaddr + 63) / 64 * 64;
        self.next_gaddr = a + size + 64;
        self.gaddr.insert(n.clone(), a);
        self.gdefs.push(GlobalDef {
            name: n.clone(),
            addr: a,
            size: t.alloc(),
            constant,
            init: if ext { Some(vec![InitByte::U; size as usize]) } else { None },
            line,
        });
        Ok(a)
    }

    fn global_header(s: &str) -> R<(Vec<Tok>, bool, bool)> {
        // after the name: linkage etc. up to `constant` / `global`
        let ci = s.find(" constant ");
        let gi = s.find(" global ");
        let (k, c) = match (ci, gi) {
            (Some(a), Some(b)) => {
                if a < b {
                    (a + 10, true)
                } else {
                    (b + 8, false)
                }
            }
            (Some(a), None) => (a + 10, true),
            (None, Some(b)) => (b + 8, false),
            _ => return Err(format!("global {}", &s[..s.len().min(80)])),
        };
        let ext = s[..k].contains(" external ") || s[..k].contains(" extern_weak ");
        Ok((lex(&s[k..]), c, ext))
    }

    /// Index of the global definition covering `addr`.
    pub fn global_at(&self, addr: u64) -> Option<usize> {
        // gdefs are in increasing address order
        let i = self.gdefs.partition_point(|g| g.addr <= addr);
        if i == 0 {
            return None;
        }
        let g = &self.gdefs[i - 1];
        if addr < g.addr + g.size.max(1) {
            Some(i - 1)
        } else {
            None
        }
    }

    pub fn global_init(&mut self, gi: usize) -> R<Vec<InitByte>> {
        if let Some(v) = &self.gdefs[gi].init {
            return Ok(v.clone());
        }
        let s = self.lines[self.gdefs[gi].line].clone();
        let (toks, _, _) = Self::global_header(&s)?;
        let mut p = P {
            t: toks,
            p: 0,
            m: self,
            regs: None,
            dbg: 0,
        };
        let t = p.ty()?;
        let v = p.cval(&t)?;
        let mut out = vec![InitByte::U; t.alloc() as usize];
        Self::flatten(&v, &t, &mut out, 0)?;
        self.gdefs[gi].init = Some(out.clone());
        Ok(out)
    }

    fn flatten(v: &CV, t: &TyR, out: &mut [InitByte], o: usize) -> R<()> {
        match (v, &**t) {
            (CV::Undef, _) => {}
            (CV::Int(x), _) if t.is_scalar() => {
                for k in 0..t.size() as usize {
                    out[o + k] = InitByte::B((x >> (8 * k)) as u8);
                }
            }
            (CV::Agg(vs), _) => {
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = t.field_off(i);
                    Self::flatten(x, &ft, out, o + fo as usize)?;
                }
            }
            _ => return Err(format!("flatten {v:?} {t:?}")),
        }
        Ok(())
    }

    pub fn func(&mut self, n: &Rc<str>) -> R<Option<Rc<Func>>> {
        let n = match self.aliases.get(n) {
            Some(a) => a.clone(),
            None => n.clone(),
        };
        if let Some(f) = self.parsed.get(&n) {
            return Ok(Some(f.clone()));
        }
        let Some(&line) = self.funcs.get(&n) else {
            return Ok(None);
        };
        let f = self
            .parse_func(&n, line)
            .map_err(|e| format!("parsing {n}: {e}"))?;
        let f = Rc::new(f);
        self.parsed.insert(n, f.clone());
        Ok(Some(f))
    }

    fn parse_func(&mut self, name: &Rc<str>, line: usize) -> R<Func> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let head = self.lines[line].clone();
        let toks = lex(&head);
        let mut params = vec![];
        let ret;
        {
            let mut p = P {
                t: toks,
                p: 0,
                m: self,
                regs: Some(&mut regs),
                dbg: 0,
            };
            p.next(); // define
            // linkage, cconv, attrs ... until type
            p.skip_attrs()?;
            ret = p.ty()?;
            match p.next() {
                Tok::Global(_) => {}
                t => return Err(format!("define name {t:?}")),
            }
            p.expect('(')?;
            while !p.eat(')') {
                if p.is('.') || p.is_id("...") {
                    p.next();
                    continue;
                }
                let t = p.ty()?;
                p.skip_attrs()?;
                let r = if let Tok::Local(n) = p.peek() {
                    let n = n.clone();
                    p.next();
                    Some(p.reg(&n))
                } else {
                    None
                };
                params.push((t, r));
                p.eat(',');
            }
        }
        // unnamed params take numbers 0.. in order; the first block may be unnamed too
        let mut end = line + 1;
        while self.lines[end] != "}" {
            end += 1;
        }
        // collect logical lines
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut i = line + 1;
        let mut cur: Option<(String, Vec<String>)> = None;
        while i < end {
            let l = self.lines[i].clone();
            if l.is_empty() {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                if l.starts_with(';') {
                    i += 1;
                    continue;
                }
                let lab = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                if let Some(c) = cur.take() {
                    blocks.push(c);
                }
                cur = Some((lab, vec![]));
                i += 1;
                continue;
            }
            if cur.is_none() {
                // implicit entry label: number = count of unnamed params
                let k = regs.keys().filter(|n| n.bytes().all(|c| c.is_ascii_digit())).count();
                cur = Some((format!("{k}"), vec![]));
            }
            let mut s = l.clone();
            let t = s.trim_start();
            if t.starts_with("switch ") {
                while !self.lines[i].trim_start().starts_with(']') {
                    i += 1;
                    s.push(' ');
                    s.push_str(&self.lines[i].clone());
                }
            } else if t.contains("invoke ") && self.lines[i + 1].trim_start().starts_with("to label")
            {
                i += 1;
                s.push(' ');
                s.push_str(&self.lines[i].clone());
            } else if t.contains("= landingpad") {
                while self.lines[i + 1].starts_with("          ") {
                    i += 1;
                }
            } else if t.starts_with('#') || t.starts_with("; ") {
                i += 1;
                continue;
            }
            cur.as_mut().unwrap().1.push(s);
            i += 1;
        }
        if let Some(c) = cur.take() {
            blocks.push(c);
        }
        let bidx: HashMap<String, u32> = blocks
            .iter()
            .enumerate()
            .map(|(i, b)| (b.0.clone(), i as u32))
            .collect();
        let mut out: Vec<Block> = vec![];
        for (_, ls) in &blocks {
            let mut b = Block::default();
            for l in ls {
                let toks = lex(l);
                let mut p = P {
                    t: toks,
                    p: 0,
                    m: self,
                    regs: Some(&mut regs),
                    dbg: 0,
                };
                match parse_inst(&mut p, &bidx) {
                    Ok(PI::Inst(i)) => b.insts.push(i),
                    Ok(PI::Phi(ph)) => b.phis.push(ph),
                    Ok(PI::None) => {}
                    Err(e) => b.insts.push(Inst {
                        dst: None,
                        i: I::Unsupported(format!("{e}: {l}")),
                        dbg: 0,
                    }),
                }
            }
            out.push(b);
        }
        let id = self.parsed.len() as u32;
        let mut regnames = vec![String::new(); regs.len()];
        for (n, &r) in &regs {
            regnames[r as usize] = n.clone();
        }
        let mut f = Func {
            name: name.clone(),
            id,
            params,
            nregs: regs.len() as u32,
            blocks: out,
            ret,
            ctl: HashMap::new(),
            regnames,
        };
        analyse(&mut f);
        Ok(f)
    }

    /// (name, file, line) of the subprogram a debug location belongs to
    pub fn dbg_fn(&self, mut id: u32) -> Option<(String, String, u32)> {
        let field = |l: &str, k: &str| -> Option<String> {
            let i = l.find(&format!("{k}: "))? + k.len() + 2;
            let r = &l[i..];
            if let Some(q) = r.strip_prefix('"') {
                Some(q[..q.find('"')?].to_string())
            } else {
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                Some(r[..e].to_string())
            }
        };
        for _ in 0..40 {
            let l = &self.lines[*self.md.get(&id)?];
            if l.contains("DISubprogram(") {
                let f: u32 = field(l, "file")?.trim_start_matches('!').parse().ok()?;
                let fl = &self.lines[*self.md.get(&f)?];
                let fname = field(fl, "filename")?;
                let dir = field(fl, "directory").unwrap_or_default();
                let full = if fname.starts_with('/') {
                    fname
                } else {
                    format!("{dir}/{fname}")
                };
                return Some((
                    field(l, "name").unwrap_or_default(),
                    full,
                    field(l, "line")?.parse().ok()?,
                ));
            }
            id = field(l, "scope")?.trim_start_matches('!').parse().ok()?;
        }
        None
    }
}

enum PI {
    Inst(Inst),
    Phi(Phi),
    None,
}

fn parse_inst(p: &mut P, bidx: &HashMap<String, u32>) -> R<PI> {
    let mut dst = None;
    if let (Tok::Local(n), Some(Tok::P('='))) = (p.peek().clone(), p.t.get(p.p + 1)) {
        dst = Some(p.reg(&n));
        p.next();
        p.next();
    }
    let Tok::Id(mut op) = p.next() else {
        return Err("opcode".into());
    };
    if matches!(op.as_str(), "tail" | "musttail" | "notail") {
        let Tok::Id(o) = p.next() else {
            return Err("opcode".into());
        };
        op = o;
    }
    let label = |p: &mut P| -> R<u32> {
        if !p.eat_id("label") {
            return Err("label".into());
        }
        match p.next() {
            Tok::Local(n) => bidx.get(&n).copied().ok_or(format!("block {n}")),
            t => Err(format!("label {t:?}")),
        }
    };
    let bin = |k: &str| -> Option<BinK> {
        Some(match k {
            "add" => BinK::Add,
            "sub" => BinK::Sub,
            "mul" => BinK::Mul,
            "udiv" => BinK::UDiv,
            "sdiv" => BinK::SDiv,
            "urem" => BinK::URem,
            "srem" => BinK::SRem,
            "shl" => BinK::Shl,
            "lshr" => BinK::LShr,
            "ashr" => BinK::AShr,
            "and" => BinK::And,
            "or" => BinK::Or,
            "xor" => BinK::Xor,
            "fadd" => BinK::FAdd,
            "fsub" => BinK::FSub,
            "fmul" => BinK::FMul,
            "fdiv" => BinK::FDiv,
            "frem" => BinK::FRem,
            _ => return None,
        })
    };
    let cast = |k: &str| -> Option<CastK> {
        Some(match k {
            "trunc" => CastK::Trunc,
            "zext" => CastK::ZExt,
            "sext" => CastK::SExt,
            "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
            "inttoptr" => CastK::IntToPtr,
            "bitcast" | "addrspacecast" => CastK::BitCast,
            "uitofp" => CastK::UIToFP,
            "sitofp" => CastK::SIToFP,
            "fptoui" => CastK::FPToUI,
            "fptosi" => CastK::FPToSI,
            "fptrunc" => CastK::FPTrunc,
            "fpext" => CastK::FPExt,
            _ => return None,
        })
    };
    let skip_flags = |p: &mut P| {
        while let Tok::Id(s) = p.peek() {
            if p.at_type() {
                break;
            }
            match s.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw"
                | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                | "volatile" | "atomic" | "weak" => {
                    p.next();
                }
                "inrange" => {
                    p.next();
                    let _ = p.skip_parens();
                }
                _ => break,
            }
        }
    };
    let i = if let Some(k) = bin(&op) {
        skip_flags(p);
        let t = p.ty()?;
        let a = p.val(&t)?;
        p.expect(',')?;
        let b = p.val(&t)?;
        I::Bin(k, t, a, b)
    } else if let Some(k) = cast(&op) {
        skip_flags(p);
        let t = p.ty()?;
        let a = p.val(&t)?;
        if !p.eat_id("to") {
            return Err("cast to".into());
        }
        let t2 = p.ty()?;
        I::Cast(k, t, a, t2)
    } else {
        match op.as_str() {
            "fneg" => {
                skip_flags(p);
                let t = p.ty()?;
                let a = p.val(&t)?;
                I::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                skip_flags(p);
                let Tok::Id(pred) = p.next() else {
                    return Err("pred".into());
                };
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let b = p.val(&t)?;
                if op == "icmp" {
                    I::ICmp(pred.into(), t, a, b)
                } else {
                    I::FCmp(pred.into(), t, a, b)
                }
            }
            "getelementptr" => {
                skip_flags(p);
                let bt = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                let base = p.val(&pt)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while p.eat(',') {
                    if matches!(p.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let it = p.ty()?;
                    let iv = p.val(&it)?;
                    let w = it.bits();
                    let scale;
                    if first {
                        scale = bt.alloc() as i64;
                        first = false;
                    } else {
                        match &*cur.clone() {
                            Ty::Struct(..) => {
                                let Op::C(CV::Int(k)) = iv else {
                                    return Err("struct gep".into());
                                };
                                let (o, ft) = cur.field_off(k as usize);
                                off += o as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, et) => {
                                scale = et.alloc() as i64;
                                cur = et.clone();
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    }
                    match iv {
                        Op::C(CV::Int(k)) => {
                            off = off.wrapping_add((sext(k, w) as i64).wrapping_mul(scale))
                        }
                        o => idx.push((o, w, scale)),
                    }
                }
                I::Gep(base, off, idx)
            }
            "load" => {
                skip_flags(p);
                let t = p.ty()?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                I::Load(t, a)
            }
            "store" => {
                skip_flags(p);
                let t = p.ty()?;
                let v = p.val(&t)?;
                p.expect(',')?;
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                I::Store(t, v, a)
            }
            "alloca" => {
                skip_flags(p);
                p.eat_id("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                let mut align = 1;
                while p.eat(',') {
                    if p.eat_id("align") {
                        align = p.num()?;
                    } else if p.at_type() {
                        let nt = p.ty()?;
                        match p.val(&nt)? {
                            Op::C(CV::Int(k)) => n = k as u64,
                            _ => return Err("dynamic alloca".into()),
                        }
                    } else {
                        break;
                    }
                }
                I::Alloca(t.alloc() * n, align)
            }
            "br" => {
                if p.is_id("label") {
                    I::Br(label(p)?)
                } else {
                    let t = p.ty()?;
                    let c = p.val(&t)?;
                    p.expect(',')?;
                    let a = label(p)?;
                    p.expect(',')?;
                    let b = label(p)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty()?;
                let c = p.val(&t)?;
                p.expect(',')?;
                let d = label(p)?;
                p.expect('[')?;
                let mut cases = vec![];
                while !p.eat(']') {
                    let ct = p.ty()?;
                    let CV::Int(k) = p.cval(&ct)? else {
                        return Err("case".into());
                    };
                    p.expect(',')?;
                    cases.push((k, label(p)?));
                }
                I::Switch(t.bits(), c, d, cases)
            }
            "ret" => {
                let t = p.ty()?;
                if *t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = p.val(&t)?;
                    I::Ret(Some((t, v)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "phi" => {
                skip_flags(p);
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.expect('[')?;
                    let v = p.val(&t)?;
                    p.expect(',')?;
                    let Tok::Local(n) = p.next() else {
                        return Err("phi block".into());
                    };
                    p.expect(']')?;
                    inc.push((*bidx.get(&n).ok_or("phi pred")?, v));
                    if !p.is(',') || !matches!(p.t.get(p.p + 1), Some(Tok::P('['))) {
                        break;
                    }
                    p.eat(',');
                }
                return Ok(PI::Phi(Phi {
                    dst: dst.ok_or("phi dst")?,
                    ty: t,
                    inc,
                }));
            }
            "select" => {
                skip_flags(p);
                let ct = p.ty()?;
                let c = p.val(&ct)?;
                p.expect(',')?;
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                I::Select(t, c, a, b, matches!(&*ct, Ty::Vec(..)))
            }
            "call" | "invoke" => {
                // cconv, return attributes, flags
                loop {
                    p.skip_attrs()?;
                    if p.at_type() {
                        break;
                    }
                    match p.peek() {
                        Tok::Attr => {
                            p.next();
                        }
                        t => return Err(format!("call type {t:?}")),
                    }
                }
                let rt = p.ty()?;
                // optional function type in parens for varargs
                if p.is('(') {
                    p.skip_parens()?;
                }
                let callee = match p.next() {
                    Tok::Global(n) => {
                        let n: Rc<str> = n.into();
                        Callee::Direct(n)
                    }
                    Tok::Local(n) => Callee::Ind(Op::Reg(p.reg(&n))),
                    Tok::Id(s) if s == "asm" => return Err("inline asm".into()),
                    t => return Err(format!("callee {t:?}")),
                };
                if let Callee::Direct(n) = &callee {
                    if n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.lifetime.start")
                        || n.starts_with("llvm.dbg.")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.va_")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.x86.sse2.pause")
                    {
                        return Ok(PI::None);
                    }
                }
                p.expect('(')?;
                let mut args = vec![];
                while !p.eat(')') {
                    if p.is_id("metadata") {
                        p.next();
                        while !p.is(',') && !p.is(')') {
                            p.next();
                        }
                        p.eat(',');
                        continue;
                    }
                    let t = p.ty()?;
                    p.skip_attrs()?;
                    let v = p.val(&t)?;
                    args.push((t, v));
                    p.eat(',');
                }
                let mut norm = None;
                if op == "invoke" {
                    while !p.is_id("to") && *p.peek() != Tok::Eof {
                        p.next();
                    }
                    p.next();
                    norm = Some(label(p)?);
                }
                I::Call(rt, callee, args, norm)
            }
            "extractvalue" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                let mut ix = vec![];
                while p.is(',') && matches!(p.t.get(p.p + 1), Some(Tok::Num(_))) {
                    p.next();
                    ix.push(p.num()? as u32);
                }
                I::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                let mut ix = vec![];
                while p.is(',') && matches!(p.t.get(p.p + 1), Some(Tok::Num(_))) {
                    p.next();
                    ix.push(p.num()? as u32);
                }
                I::InsertValue(t, a, b, ix)
            }
            "extractelement" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                I::ExtractElement(t, a, b)
            }
            "insertelement" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                p.expect(',')?;
                let t3 = p.ty()?;
                let c = p.val(&t3)?;
                I::InsertElement(t, a, b, c)
            }
            "shufflevector" => {
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let b = p.val(&t2)?;
                p.expect(',')?;
                let mt = p.ty()?;
                let m = p.cval(&mt)?;
                let CV::Agg(ms) = m else {
                    return Err("shuffle mask".into());
                };
                I::Shuffle(
                    t,
                    a,
                    b,
                    ms.iter()
                        .map(|x| match x {
                            CV::Int(k) => Some(*k as u32),
                            _ => None,
                        })
                        .collect(),
                )
            }
            "freeze" => {
                let t = p.ty()?;
                I::Freeze(p.val(&t)?)
            }
            "cmpxchg" => {
                skip_flags(p);
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let b = p.val(&t)?;
                p.expect(',')?;
                let t2 = p.ty()?;
                let c = p.val(&t2)?;
                I::CmpXchg(t, a, b, c)
            }
            "atomicrmw" => {
                skip_flags(p);
                let Tok::Id(k) = p.next() else {
                    return Err("rmw".into());
                };
                let pt = p.ty()?;
                let a = p.val(&pt)?;
                p.expect(',')?;
                let t = p.ty()?;
                let b = p.val(&t)?;
                I::AtomicRmw(k.into(), t, a, b)
            }
            "fence" => I::Fence,
            "landingpad" => I::LandingPad,
            _ => return Err(format!("opcode {op}")),
        }
    };
    p.trailer();
    Ok(PI::Inst(Inst {
        dst,
        i,
        dbg: p.dbg,
    }))
}

pub fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    let mut g = |o: &Op| {
        if let Op::Reg(r) = o {
            f(*r)
        }
    };
    match i {
        I::Bin(_, _, a, b) | I::ICmp(_, _, a, b) | I::FCmp(_, _, a, b) => {
            g(a);
            g(b)
        }
        I::FNeg(_, a) | I::Cast(_, _, a, _) | I::Load(_, a) | I::Freeze(a) => g(a),
        I::Gep(b, _, ix) => {
            g(b);
            ix.iter().for_each(|x| g(&x.0))
        }
        I::Store(_, v, a) => {
            g(v);
            g(a)
        }
        I::CondBr(c, ..) => g(c),
        I::Switch(_, c, ..) => g(c),
        I::Ret(Some((_, v))) => g(v),
        I::Select(_, c, a, b, _) => {
            g(c);
            g(a);
            g(b)
        }
        I::Call(_, c, args, _) => {
            if let Callee::Ind(o) = c {
                g(o)
            }
            args.iter().for_each(|x| g(&x.1))
        }
        I::ExtractValue(a, _) => g(a),
        I::InsertValue(_, a, b, _) => {
            g(a);
            g(b)
        }
        I::ExtractElement(_, a, b) => {
            g(a);
            g(b)
        }
        I::InsertElement(_, a, b, c) => {
            g(a);
            g(b);
            g(c)
        }
        I::Shuffle(_, a, b, _) => {
            g(a);
            g(b)
        }
        I::CmpXchg(_, a, b, c) => {
            g(a);
            g(b);
            g(c)
        }
        I::AtomicRmw(_, _, a, b) => {
            g(a);
            g(b)
        }
        _ => {}
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    for b in 0..n {
        let mut s: Vec<u32> = match f.blocks[b].insts.last().map(|x| &x.i) {
            Some(I::Br(t)) => vec![*t],
            Some(I::CondBr(_, a, c)) => vec![*a, *c],
            Some(I::Switch(_, _, d, cs)) => {
                let mut v = vec![*d];
                v.extend(cs.iter().map(|c| c.1));
                v
            }
            Some(I::Call(_, _, _, Some(nrm))) => vec![*nrm],
            _ => vec![],
        };
        s.sort();
        s.dedup();
        for &t in &s {
            f.blocks[t as usize].npreds += 1;
        }
        f.blocks[b].succs = s;
    }
    // weak topological order (Bourdoncle)
    struct W<'a> {
        succs: Vec<&'a Vec<u32>>,
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<u32>,
    }
    enum El {
        V(u32),
        C(u32, Vec<El>),
    }
    impl<'a> W<'a> {
        fn component(&mut self, v: u32) -> El {
            let mut part = vec![];
            for &s in self.succs[v as usize].clone().iter() {
                if self.dfn[s as usize] == 0 {
                    self.visit(s, &mut part);
                }
            }
            part.reverse();
            El::C(v, part)
        }
        fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v as usize] = self.num;
            let mut head = self.num;
            let mut lp = false;
            for &s in self.succs[v as usize].clone().iter() {
                let m = if self.dfn[s as usize] == 0 {
                    self.visit(s, part)
                } else {
                    self.dfn[s as usize]
                };
                if m <= head {
                    head = m;
                    lp = true;
                }
            }
            if head == self.dfn[v as usize] {
                self.dfn[v as usize] = u32::MAX;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v {
                        self.dfn[e as usize] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    let c = self.component(v);
                    part.push(c);
                } else {
                    part.push(El::V(v));
                }
            }
            head
        }
    }
    let els;
    {
        let mut w = W {
            succs: f.blocks.iter().map(|b| &b.succs).collect(),
            dfn: vec![0; n],
            num: 0,
            stack: vec![],
        };
        let mut part = vec![];
        w.visit(0, &mut part);
        part.reverse();
        els = part;
    }
    let mut order = vec![];
    fn walk(els: &[El], loops: &mut Vec<u32>, cnt: &mut u32, out: &mut Vec<(u32, u32, Vec<u32>, bool)>) {
        for e in els {
            match e {
                El::V(v) => {
                    out.push((*v, *cnt, loops.clone(), false));
                    *cnt += 1;
                }
                El::C(h, body) => {
                    let pos = *cnt;
                    loops.push(pos);
                    out.push((*h, pos, loops.clone(), true));
                    *cnt += 1;
                    walk(body, loops, cnt, out);
                    loops.pop();
                }
            }
        }
    }
    let mut cnt = 0;
    walk(&els, &mut vec![], &mut cnt, &mut order);
    for (b, pos, loops, hdr) in order {
        let bl = &mut f.blocks[b as usize];
        bl.pos = pos;
        bl.loops = loops;
        bl.is_header = hdr;
    }
    // control phis: loop header phis and phis flowing directly into them
    let words = (f.nregs as usize + 63) / 64;
    let mut phi_of: HashMap<u32, (usize, usize)> = HashMap::new();
    for (bi, b) in f.blocks.iter().enumerate() {
        for (pi, p) in b.phis.iter().enumerate() {
            phi_of.insert(p.dst, (bi, pi));
        }
    }
    let mut all = HashMap::new();
    for b in &f.blocks {
        if !b.is_header {
            continue;
        }
        let mut set = std::collections::BTreeSet::new();
        let mut work: Vec<u32> = b
            .phis
            .iter()
            .filter(|p| matches!(&*p.ty, Ty::Int(_) | Ty::Ptr))
            .map(|p| p.dst)
            .collect();
        while let Some(r) = work.pop() {
            if !set.insert(r) {
                continue;
            }
            if let Some(&(bi, pi)) = phi_of.get(&r) {
                for (_, o) in &f.blocks[bi].phis[pi].inc {
                    if let Op::Reg(q) = o {
                        if phi_of.contains_key(q) {
                            work.push(*q);
                        }
                    }
                }
            }
        }
        all.insert(b.pos, set.into_iter().collect::<Vec<u32>>());
    }
    f.ctl = all;
    // liveness; live_in is after the block's phis have been evaluated
    let mut gen = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    for b in 0..n {
        for ins in &f.blocks[b].insts {
            uses(&ins.i, &mut |r| {
                if kill[b][r as usize / 64] >> (r % 64) & 1 == 0 {
                    gen[b][r as usize / 64] |= 1 << (r % 64);
                }
            });
            if let Some(d) = ins.dst {
                kill[b][d as usize / 64] |= 1 << (d % 64);
            }
        }
        f.blocks[b].live_in = gen[b].clone();
    }
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &f.blocks[b].succs {
                let sb = &f.blocks[s as usize];
                let mut li = sb.live_in.clone();
                for p in &sb.phis {
                    li[p.dst as usize / 64] &= !(1 << (p.dst % 64));
                }
                for p in &sb.phis {
                    for (pb, o) in &p.inc {
                        if *pb == b as u32 {
                            if let Op::Reg(r) = o {
                                li[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
                for k in 0..words {
                    out[k] |= li[k];
                }
            }
            for k in 0..words {
                let v = gen[b][k] | (out[k] & !kill[b][k]);
                if v & !f.blocks[b].live_in[k] != 0 {
                    f.blocks[b].live_in[k] |= v;
                    changed = true;
                }
            }
        }
    }
}

impl Module {
    pub fn tyconst_ptr(&self) -> TyR {
        self.tyconst.ptr.clone()
    }
}
