//! LLVM IR: data structures and parser of the textual form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((n + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = ((n + 7) / 8) as u64; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => match **t { Ty::Int(b) if b < 8 => (n * b as u64 + 7) / 8, _ => n * t.store_size() },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.store_size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => self,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("count"),
        }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) }
}

/// Constant value.
#[derive(Clone, Debug)]
pub enum C {
    I(u128),
    Agg(Vec<C>),
}
#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(C),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32), // intrinsic or external, index into `Module::ext`
    Val(O),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Debug)]
pub enum I {
    Bin(B, Ty, O, O),
    ICmp(Pred, Ty, O, O),
    FCmp(String, Ty, O, O),
    FNeg(Ty, O),
    Cast(Cast, Ty, Ty, O),
    Gep(Ty, O, u64, Vec<(Ty, O, u64)>),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(u64, O, u32),
    Phi, // handled with the block
    Select(Ty, bool, O, O, O),
    Call(Callee, Vec<(Ty, O)>, Ty, Option<u32>),
    ExtractV(O, Vec<u32>),
    InsertV(Ty, O, O, Vec<u32>),
    ExtractE(O, O),
    InsertE(O, O, O),
    Shuffle(O, O, Vec<i64>, u64),
    Rmw(String, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Fence,
    Freeze(O),
    Ret(Option<(Ty, O)>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Unreachable,
    Resume,
    LandingPad,
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub i: I,
    pub dst: u32, // u32::MAX when none
    pub dbg: u32,
    pub gid: u32,
}
#[derive(Default, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Option<Ty>,
    pub inc: Vec<(u32, O)>, // (predecessor, value)
}
#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Inst>,
}
#[derive(Default, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub sp: u32, // DISubprogram
    pub varargs: bool,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Option<Vec<u8>>,
    pub constant: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub ext: Vec<String>,
    pub globals: Vec<Global>,
    pub rel: HashMap<(u32, u64), u64>,
    pub meta: HashMap<u32, String>,
    pub ninst: u32,
}
/// Address layout: object number in the high half, offset in the low half.
pub const FN_BASE: u64 = 0x4000_0000;
pub const EXT_BASE: u64 = 0x5000_0000;
pub fn addr(obj: u64, off: u64) -> u64 { (obj << 32) | off }

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),   // bare word or number
    L(String),   // %x
    G(String),   // @x
    S(Vec<u8>),  // "..."
    M(String),   // !x
    P(char),
    Dots,
    Eof,
}
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; continue; }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}
fn isw(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+') }
fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' { i += 1; continue; }
        if c == b';' { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if (c == b'%' || c == b'@' || c == b'!' || c == b'#' || c == b'$') && i + 1 < b.len() {
            if b[i + 1] == b'"' {
                let e = i + 2 + s[i + 2..].find('"').unwrap();
                let n = String::from_utf8_lossy(&unescape(&b[i + 2..e])).into_owned();
                o.push(match c { b'%' => T::L(n), b'@' => T::G(n), _ => T::M(n) });
                i = e + 1;
                continue;
            }
            if isw(b[i + 1]) {
                let mut e = i + 1;
                while e < b.len() && isw(b[e]) { e += 1; }
                let n = s[i + 1..e].to_string();
                o.push(match c { b'%' => T::L(n), b'@' => T::G(n), _ => T::M(n) });
                i = e;
                continue;
            }
        }
        if c == b'"' || (c == b'c' && b.get(i + 1) == Some(&b'"')) {
            let st = if c == b'c' { i + 2 } else { i + 1 };
            let e = st + s[st..].find('"').unwrap();
            o.push(T::S(unescape(&b[st..e])));
            i = e + 1;
            continue;
        }
        if s[i..].starts_with("...") { o.push(T::Dots); i += 3; continue; }
        if isw(c) {
            let mut e = i;
            while e < b.len() && isw(b[e]) { e += 1; }
            o.push(T::W(s[i..e].to_string()));
            i = e;
            continue;
        }
        o.push(T::P(c as char));
        i += 1;
    }
    o
}

pub struct Parser<'a> {
    t: Vec<T>,
    p: usize,
    m: &'a mut Module,
    gaddr: &'a HashMap<String, u64>,
    types: &'a HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    last_rel: Option<u64>,
    extidx: &'a mut HashMap<String, u32>,
}
type R<X> = Result<X, String>;

fn fbits(s: &str, ty: &Ty) -> Option<u128> {
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("f0x")) {
        let v = u64::from_str_radix(h, 16).ok()?;
        return Some(match ty { Ty::F32 if s.starts_with("0x") => (f64::from_bits(v) as f32).to_bits() as u128, _ => v as u128 });
    }
    let v: f64 = match s {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" | "nan" => f64::NAN,
        _ => s.parse().ok()?,
    };
    Some(match ty { Ty::F32 => (v as f32).to_bits() as u128, _ => v.to_bits() as u128 })
}

impl<'a> Parser<'a> {
    fn peek(&self) -> &T { self.t.get(self.p).unwrap_or(&T::Eof) }
    fn peek2(&self) -> &T { self.t.get(self.p + 1).unwrap_or(&T::Eof) }
    fn next(&mut self) -> T { let t = self.peek().clone(); self.p += 1; t }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), T::W(x) if x == w) }
    fn isp(&self, c: char) -> bool { *self.peek() == T::P(c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.p += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.p += 1; true } else { false } }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eatp(c) { Ok(()) } else { Err(format!("expected {} at {:?} (token {})", c, &self.t[self.p.min(self.t.len())..], self.p)) }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => { d -= 1; if d == 0 { return; } }
                T::Eof => return,
                _ => {}
            }
        }
    }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            T::W(w) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "bfloat")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P('{') | T::P('<') | T::P('[') => true,
            T::L(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        while !self.is_ty_start() {
            match self.peek() {
                T::W(w) => {
                    let w = w.clone();
                    self.p += 1;
                    if (w == "align" || w == "cc" || w == "addrspace") && matches!(self.peek(), T::W(_)) { self.p += 1; }
                    else if self.isp('(') { self.skip_paren(); }
                }
                T::M(_) | T::S(_) => { self.p += 1; }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") { self.p += 1; self.skip_paren(); }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Other,
                _ => match w[1..].parse() {
                    Ok(n) if w.starts_with('i') => Ty::Int(n),
                    _ => return Err(format!("type {}", w)),
                },
            },
            T::L(n) => self.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eatw("x") { return Err("x".into()); }
                let e = self.ty()?;
                self.expect(']')?;
                Ty::Arr(n, Box::new(e))
            }
            T::P('{') => Ty::Struct(self.fields('}')?, false),
            T::P('<') => {
                if self.eatp('{') {
                    let f = self.fields('}')?;
                    self.expect('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()? as u64;
                    if !self.eatw("x") { return Err("x".into()); }
                    let e = self.ty()?;
                    self.expect('>')?;
                    Ty::Vec(n, Box::new(e))
                }
            }
            t => return Err(format!("type at {:?}", t)),
        };
        Ok(t)
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(v); }
        loop {
            v.push(self.ty()?);
            if self.eatp(end) { return Ok(v); }
            self.expect(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            T::W(w) => w.parse::<i128>().map_err(|_| format!("number {}", w)),
            t => Err(format!("number at {:?}", t)),
        }
    }
    fn zero(ty: &Ty) -> C {
        match ty {
            Ty::Struct(f, _) => C::Agg(f.iter().map(Self::zero).collect()),
            Ty::Arr(n, t) => { if **t == Ty::Int(8) && *n > 4096 { return C::Agg(vec![]); } C::Agg(vec![Self::zero(t); *n as usize]) }
            Ty::Vec(n, t) => C::Agg(vec![Self::zero(t); *n as usize]),
            _ => C::I(0),
        }
    }
    fn cval(&mut self, ty: &Ty) -> R<C> {
        match self.val(ty)? { O::C(c) => Ok(c), _ => Err("constant expected".into()) }
    }
    fn gname(&mut self, n: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(n) { return Ok(*a); }
        Err(format!("unknown global @{}", n))
    }
    fn val(&mut self, ty: &Ty) -> R<O> {
        match self.next() {
            T::L(n) => self.regs.get(&n).map(|r| O::R(*r)).ok_or(format!("reg %{}", n)),
            T::G(n) => Ok(O::C(C::I(self.gname(&n)? as u128))),
            T::S(b) => Ok(O::C(C::Agg(b.into_iter().map(|x| C::I(x as u128)).collect()))),
            T::P('[') => self.agg(ty, ']'),
            T::P('{') => self.agg(ty, '}'),
            T::P('<') => {
                if self.eatp('{') { let r = self.agg(ty, '}')?; self.expect('>')?; Ok(r) } else { self.agg(ty, '>') }
            }
            T::W(w) => {
                match w.as_str() {
                    "true" => return Ok(O::C(C::I(1))),
                    "false" | "null" | "none" => return Ok(O::C(C::I(0))),
                    "undef" | "poison" | "zeroinitializer" => return Ok(O::C(Self::zero(ty))),
                    "dso_local_equivalent" | "no_cfi" => return self.val(ty),
                    "splat" => {
                        self.expect('(')?;
                        let t = self.ty()?;
                        let c = self.cval(&t)?;
                        self.expect(')')?;
                        return Ok(O::C(C::Agg(vec![c; ty.count()])));
                    }
                    "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "ptrtoaddr" | "xor" | "and" | "mul" | "shl" => {
                        let v = self.cexpr(&w)?;
                        return Ok(O::C(C::I(v)));
                    }
                    _ => {}
                }
                match ty {
                    Ty::F32 | Ty::F64 => fbits(&w, ty).map(|v| O::C(C::I(v))).ok_or(format!("float {}", w)),
                    Ty::Int(n) => {
                        let v: i128 = if let Ok(v) = w.parse::<i128>() { v } else { w.parse::<u128>().map_err(|_| format!("int {}", w))? as i128 };
                        Ok(O::C(C::I(v as u128 & crate::expr::mask(*n))))
                    }
                    _ => Err(format!("value {} of {:?}", w, ty)),
                }
            }
            t => Err(format!("value at {:?}", t)),
        }
    }
    fn agg(&mut self, _ty: &Ty, end: char) -> R<O> {
        let mut v = vec![];
        let mut reg = false;
        let _ = &mut reg;
        if self.eatp(end) { return Ok(O::C(C::Agg(v))); }
        loop {
            let t = self.ty()?;
            v.push(self.cval(&t)?);
            if self.eatp(end) { return Ok(O::C(C::Agg(v))); }
            self.expect(',')?;
        }
    }
    fn cexpr(&mut self, w: &str) -> R<u128> {
        while matches!(self.peek(), T::W(_)) && !self.isp('(') {
            // inbounds, nuw, nusw, inrange(...)
            let isin = self.isw("inrange");
            self.p += 1;
            if isin && self.isp('(') { self.skip_paren(); }
        }
        self.expect('(')?;
        let r = match w {
            "getelementptr" => {
                let src = self.ty()?;
                self.expect(',')?;
                let pt = self.ty()?;
                let base = match self.cval(&pt)? { C::I(v) => v, _ => return Err("gep base".into()) };
                let mut off: i128 = 0;
                let mut cur = src.clone();
                let mut first = true;
                while self.eatp(',') {
                    let it = self.ty()?;
                    let v = match self.cval(&it)? { C::I(v) => crate::expr::sext128(v, it.bits()), _ => return Err("gep idx".into()) };
                    if first { off += v * src.size() as i128; first = false; } else {
                        off += cur.field_off(v as usize) as i128;
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 }).clone();
                    }
                }
                (base as i128 + off) as u128 & u64::MAX as u128
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                let t = self.ty()?;
                let v = match self.cval(&t)? { C::I(v) => v, _ => return Err("cast".into()) };
                if !self.eatw("to") { return Err("to".into()); }
                let d = self.ty()?;
                v & crate::expr::mask(d.bits())
            }
            _ => {
                let t = self.ty()?;
                let a = match self.cval(&t)? { C::I(v) => v, _ => return Err("bin".into()) };
                self.expect(',')?;
                let t2 = self.ty()?;
                let b = match self.cval(&t2)? { C::I(v) => v, _ => return Err("bin".into()) };
                let m = crate::expr::mask(t.bits());
                match w {
                    "sub" => { self.last_rel = Some(a as u64); a.wrapping_sub(b) & m }
                    "add" => a.wrapping_add(b) & m,
                    "xor" => a ^ b,
                    "and" => a & b,
                    "mul" => a.wrapping_mul(b) & m,
                    _ => (a << b) & m,
                }
            }
        };
        self.expect(')')?;
        Ok(r)
    }
    fn tyval(&mut self) -> R<(Ty, O)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") { return Err(format!("label at {:?}", self.peek())); }
        match self.next() {
            T::L(n) => self.labels.get(&n).copied().ok_or(format!("label %{}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn flags(&mut self) {
        while let T::W(w) = self.peek() {
            if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inrange") {
                let inr = w == "inrange";
                self.p += 1;
                if inr && self.isp('(') { self.skip_paren(); }
            } else { break; }
        }
    }
    fn inst(&mut self) -> R<(I, Ty)> {
        let w = match self.next() { T::W(w) => w, t => return Err(format!("instruction {:?}", t)) };
        use I::*;
        Ok(match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(',')?;
                let b = self.val(&t)?;
                let op = match w.as_str() {
                    "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem,
                    "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or,
                    "xor" => B::Xor, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem,
                };
                (Bin(op, t.clone(), a, b), t)
            }
            "fneg" => { self.flags(); let (t, a) = self.tyval()?; (FNeg(t.clone(), a), t) }
            "icmp" => {
                self.flags();
                let p = match self.next() { T::W(w) => w, _ => return Err("pred".into()) };
                let p = match p.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(',')?;
                let b = self.val(&t)?;
                (ICmp(p, t.clone(), a, b), Ty::Int(1))
            }
            "fcmp" => {
                self.flags();
                let p = match self.next() { T::W(w) => w, _ => return Err("pred".into()) };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(',')?;
                let b = self.val(&t)?;
                (FCmp(p, t, a, b), Ty::Int(1))
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.flags();
                let (t, a) = self.tyval()?;
                if !self.eatw("to") { return Err("to".into()); }
                let d = self.ty()?;
                let k = match w.as_str() {
                    "trunc" => self::Cast::Trunc, "zext" => self::Cast::ZExt, "sext" => self::Cast::SExt,
                    "fptoui" => self::Cast::FpToUi, "fptosi" => self::Cast::FpToSi, "uitofp" => self::Cast::UiToFp,
                    "sitofp" => self::Cast::SiToFp, "fpext" => self::Cast::FpExt, "fptrunc" => self::Cast::FpTrunc,
                    _ => self::Cast::Bit,
                };
                (I::Cast(k, t, d.clone(), a), d)
            }
            "getelementptr" => {
                self.flags();
                let src = self.ty()?;
                self.expect(',')?;
                let (pt, base) = self.tyval()?;
                let mut konst: i128 = 0;
                let mut idx = vec![];
                let mut cur = src.clone();
                let mut first = true;
                let mut res = pt.clone();
                while self.eatp(',') {
                    if matches!(self.peek(), T::M(_)) { self.p -= 1; break; }
                    let (it, v) = self.tyval()?;
                    if it.is_agg() { res = Ty::Vec(it.count() as u64, Box::new(Ty::Ptr)); }
                    if !first {
                        if let Ty::Struct(..) = cur {
                            let k = match &v { O::C(C::I(k)) => *k as usize, _ => return Err("struct idx".into()) };
                            konst += cur.field_off(k) as i128;
                            cur = cur.elem(k).clone();
                            continue;
                        }
                    }
                    let stride = if first { src.size() } else { let e = cur.elem(0).clone(); let s = match cur { Ty::Vec(..) => e.store_size(), _ => e.size() }; cur = e; s };
                    first = false;
                    match &v {
                        O::C(C::I(k)) => konst += crate::expr::sext128(*k, it.bits()) * stride as i128,
                        _ => idx.push((it, v, stride)),
                    }
                }
                (Gep(pt, base, konst as i64 as u64, idx), res)
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.expect(',')?;
                let (_, p) = self.tyval()?;
                (Load(t.clone(), p), t)
            }
            "store" => {
                self.flags();
                let (t, v) = self.tyval()?;
                self.expect(',')?;
                let (_, p) = self.tyval()?;
                (Store(t, v, p), Ty::Void)
            }
            "alloca" => {
                self.flags();
                let t = self.ty()?;
                let mut n = O::C(C::I(1));
                let mut nb = 32;
                if self.isp(',') && matches!(self.peek2(), T::W(w) if w != "align" && w != "addrspace") {
                    self.p += 1;
                    let (nt, v) = self.tyval()?;
                    nb = nt.bits();
                    n = v;
                }
                (Alloca(t.size(), n, nb), Ty::Ptr)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval()?;
                self.expect(',')?;
                let (t, a) = self.tyval()?;
                self.expect(',')?;
                let (_, b) = self.tyval()?;
                (Select(t.clone(), ct.is_agg(), c, a, b), t)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = w == "invoke";
                if w != "call" && !inv { self.p += 1; }
                self.flags();
                self.skip_attrs();
                let rt = self.ty()?;
                if self.isp('(') { self.skip_paren(); }
                let mut callee = match self.next() {
                    T::G(n) => {
                        if let Some(f) = self.m.fidx.get(&n) { Callee::Fn(*f) } else {
                            let k = self.extidx.len() as u32;
                            let e = *self.extidx.entry(n.clone()).or_insert(k);
                            if e == k && self.m.ext.len() == k as usize { self.m.ext.push(n); }
                            Callee::Ext(e)
                        }
                    }
                    T::L(n) => Callee::Val(O::R(*self.regs.get(&n).ok_or("callee reg")?)),
                    T::W(w) if w == "asm" => {
                        while matches!(self.peek(), T::W(_)) { self.p += 1; }
                        self.p += 1; // template
                        self.expect(',')?;
                        self.p += 1; // constraints
                        Callee::Asm
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                let drop = match &callee {
                    Callee::Ext(e) => {
                        let n = &self.m.ext[*e as usize];
                        n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg")
                    }
                    _ => false,
                };
                let mut args = vec![];
                if drop {
                    self.skip_paren();
                    callee = Callee::Asm;
                } else {
                    self.expect('(')?;
                    if !self.eatp(')') {
                        loop {
                            let t = self.ty()?;
                            self.skip_pattrs();
                            if t == Ty::Other { while !self.isp(',') && !self.isp(')') { self.p += 1; } args.push((t, O::C(C::I(0)))); }
                            else { let v = self.val(&t)?; args.push((t, v)); }
                            if self.eatp(')') { break; }
                            self.expect(',')?;
                        }
                    }
                }
                let mut normal = None;
                if inv {
                    while !self.isw("to") { if *self.peek() == T::Eof { return Err("invoke to".into()); } self.p += 1; }
                    self.p += 1;
                    normal = Some(self.label()?);
                }
                (Call(callee, args, rt.clone(), normal), rt)
            }
            "extractvalue" => {
                let (t, a) = self.tyval()?;
                let mut ix = vec![];
                let mut cur = t;
                while self.isp(',') && matches!(self.peek2(), T::W(_)) {
                    self.p += 1;
                    let k = self.num()? as u32;
                    cur = cur.elem(k as usize).clone();
                    ix.push(k);
                }
                (ExtractV(a, ix), cur)
            }
            "insertvalue" => {
                let (t, a) = self.tyval()?;
                self.expect(',')?;
                let (_, v) = self.tyval()?;
                let mut ix = vec![];
                while self.isp(',') && matches!(self.peek2(), T::W(_)) { self.p += 1; ix.push(self.num()? as u32); }
                (InsertV(t.clone(), a, v, ix), t)
            }
            "extractelement" => {
                let (t, a) = self.tyval()?;
                self.expect(',')?;
                let (_, i) = self.tyval()?;
                (ExtractE(a, i), t.elem(0).clone())
            }
            "insertelement" => {
                let (t, a) = self.tyval()?;
                self.expect(',')?;
                let (_, v) = self.tyval()?;
                self.expect(',')?;
                let (_, i) = self.tyval()?;
                (InsertE(a, v, i), t)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.expect(',')?;
                let (_, b) = self.tyval()?;
                self.expect(',')?;
                let mt = self.ty()?;
                let m = self.cval(&mt)?;
                let ix = match m { C::Agg(v) => v.iter().map(|c| match c { C::I(k) => *k as i64, _ => 0 }).collect::<Vec<_>>(), _ => return Err("mask".into()) };
                let n = t.count() as u64;
                (Shuffle(a, b, ix.clone(), n), Ty::Vec(ix.len() as u64, Box::new(t.elem(0).clone())))
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.next() { T::W(w) => w, _ => return Err("rmw".into()) };
                let (_, p) = self.tyval()?;
                self.expect(',')?;
                let (t, v) = self.tyval()?;
                (Rmw(op, t.clone(), p, v), t)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyval()?;
                self.expect(',')?;
                let (t, c) = self.tyval()?;
                self.expect(',')?;
                let (_, n) = self.tyval()?;
                (CmpXchg(t.clone(), p, c, n), Ty::Struct(vec![t, Ty::Int(1)], false))
            }
            "fence" => (Fence, Ty::Void),
            "freeze" => { let (t, a) = self.tyval()?; (Freeze(a), t) }
            "ret" => {
                if self.eatw("void") { (Ret(None), Ty::Void) } else { let v = self.tyval()?; (Ret(Some(v)), Ty::Void) }
            }
            "br" => {
                if self.isw("label") { (Br(self.label()?), Ty::Void) } else {
                    let (_, c) = self.tyval()?;
                    self.expect(',')?;
                    let a = self.label()?;
                    self.expect(',')?;
                    let b = self.label()?;
                    (CondBr(c, a, b), Ty::Void)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.expect(',')?;
                let d = self.label()?;
                self.expect('[')?;
                let mut cs = vec![];
                while !self.eatp(']') {
                    let ct = self.ty()?;
                    let c = match self.cval(&ct)? { C::I(v) => v, _ => return Err("case".into()) };
                    self.expect(',')?;
                    cs.push((c, self.label()?));
                }
                (Switch(t, v, d, cs), Ty::Void)
            }
            "unreachable" => (Unreachable, Ty::Void),
            "resume" => (Resume, Ty::Void),
            "landingpad" | "catchpad" | "cleanuppad" | "catchswitch" | "cleanupret" | "catchret" | "callbr" | "indirectbr" => (LandingPad, Ty::Void),
            _ => return Err(format!("unknown instruction {}", w)),
        })
    }
    fn skip_pattrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) => {
                    let known = matches!(w.as_str(), "noundef" | "nonnull" | "noalias" | "nofree" | "nocapture" | "readonly" | "readnone" | "writeonly" | "writable" | "signext" | "zeroext" | "inreg" | "byval" | "sret" | "align" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "returned" | "immarg" | "initializes" | "dead_on_unwind" | "dead_on_return" | "allocalign" | "allocptr" | "noext" | "nofpclass" | "swiftself" | "nest" | "alignstack" | "elementtype");
                    if !known { return; }
                    let al = w == "align";
                    self.p += 1;
                    if self.isp('(') { self.skip_paren(); } else if al { self.p += 1; }
                }
                T::M(_) | T::S(_) => { self.p += 1; }
                _ => return,
            }
        }
    }
}

fn c_bytes(c: &C, ty: &Ty, out: &mut [u8], base: u64) {
    match (c, ty) {
        (C::I(v), _) => {
            let n = ty.store_size() as usize;
            for k in 0..n.min(16) { out[base as usize + k] = (*v >> (8 * k)) as u8; }
        }
        (C::Agg(v), _) => {
            for (k, e) in v.iter().enumerate() {
                let t = ty.elem(k);
                c_bytes(e, t, out, base + ty.field_off(k));
            }
        }
    }
}

pub fn parse(src: &str) -> R<Module> {
    let mut m = Module { funcs: vec![], fidx: HashMap::new(), ext: vec![], globals: vec![], rel: HashMap::new(), meta: HashMap::new(), ninst: 0 };
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut extidx: HashMap<String, u32> = HashMap::new();
    let lines: Vec<&str> = src.lines().collect();
    let name_of = |l: &str| -> Option<String> {
        let at = l.find('@')?;
        match lex(&l[at..l.len().min(at + 2000)].split(|c| c == '(' || c == '=').next().unwrap_or("")).into_iter().next() {
            Some(T::G(n)) => Some(n),
            _ => None,
        }
    };
    // Named types (in dependency order: retry until stable).
    for _ in 0..8 {
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let (n, d) = l.split_once(" = type ").unwrap();
                let n = n[1..].trim_matches('"').to_string();
                if types.contains_key(&n) { continue; }
                let mut p = Parser { t: lex(d), p: 0, m: &mut m, gaddr: &gaddr, types: &types, regs: HashMap::new(), labels: HashMap::new(), last_rel: None, extidx: &mut extidx };
                if let Ok(t) = p.ty() { types.insert(n, t); }
            }
        }
    }
    // Names and addresses.
    let mut aliases = vec![];
    let mut glines = vec![];
    for l in &lines {
        if l.starts_with('@') {
            let n = name_of(l).ok_or(format!("global {}", l))?;
            if l.contains(" alias ") { aliases.push((n, l.to_string())); continue; }
            let id = m.globals.len() as u64 + 1;
            gaddr.insert(n.clone(), addr(id, 0));
            m.globals.push(Global { name: n, size: 0, data: None, constant: false });
            glines.push(*l);
        } else if l.starts_with("define ") {
            let n = name_of(l).ok_or(format!("define {}", l))?;
            let id = m.funcs.len() as u32;
            gaddr.insert(n.clone(), addr(FN_BASE + id as u64, 0));
            m.fidx.insert(n.clone(), id);
            m.funcs.push(Func { name: n, ..Default::default() });
        } else if l.starts_with("declare ") {
            let n = name_of(l).ok_or(format!("declare {}", l))?;
            let k = m.ext.len() as u32;
            extidx.insert(n.clone(), k);
            gaddr.insert(n.clone(), if l.contains("extern_weak") { 0 } else { addr(EXT_BASE + k as u64, 0) });
            m.ext.push(n);
        } else if l.starts_with('!') {
            if let Some((a, b)) = l.split_once(" = ") {
                if let Ok(k) = a[1..].parse::<u32>() { m.meta.insert(k, b.to_string()); }
            }
        }
    }
    for (n, l) in aliases {
        let at = l.rfind("ptr @").ok_or("alias")?;
        if let Some(T::G(t)) = lex(&l[at + 4..]).into_iter().next() {
            let a = *gaddr.get(&t).ok_or("alias target")?;
            gaddr.insert(n.clone(), a);
            if let Some(f) = m.fidx.get(&t).copied() { m.fidx.insert(n, f); }
        }
    }
    // Global initialisers.
    for (gi, l) in glines.iter().enumerate() {
        let mut toks = lex(l);
        let mut k = 0;
        let mut constant = false;
        let mut external = false;
        while k < toks.len() {
            match &toks[k] {
                T::W(w) if w == "global" => break,
                T::W(w) if w == "constant" => { constant = true; break; }
                T::W(w) if w == "external" || w == "extern_weak" => external = true,
                _ => {}
            }
            k += 1;
        }
        toks.drain(..=k.min(toks.len() - 1));
        let mut p = Parser { t: toks, p: 0, m: &mut m, gaddr: &gaddr, types: &types, regs: HashMap::new(), labels: HashMap::new(), last_rel: None, extidx: &mut extidx };
        let ty = p.ty().map_err(|e| format!("{}: {}", l, e))?;
        let mut data = None;
        let mut rels = vec![];
        if !external {
            let mut buf = vec![0u8; ty.size() as usize];
            // relative tables: [n x i32] of trunc(sub(ptrtoint, ptrtoint))
            if matches!(&ty, Ty::Arr(_, t) if **t == Ty::Int(32)) && p.isp('[') {
                p.p += 1;
                let mut off = 0u64;
                loop {
                    p.ty()?;
                    p.last_rel = None;
                    let c = p.cval(&Ty::Int(32)).map_err(|e| format!("{}: {}", l, e))?;
                    if let Some(a) = p.last_rel { rels.push((off, a)); }
                    c_bytes(&c, &Ty::Int(32), &mut buf, off);
                    off += 4;
                    if !p.eatp(',') { break; }
                }
            } else {
                let c = p.cval(&ty).map_err(|e| format!("{}: {}", &l[..l.len().min(200)], e))?;
                c_bytes(&c, &ty, &mut buf, 0);
            }
            data = Some(buf);
        }
        for (o, a) in rels { m.rel.insert((gi as u32 + 1, o), a); }
        let g = &mut m.globals[gi];
        g.size = ty.size();
        g.data = data;
        g.constant = constant;
    }
    // Functions.
    let mut li = 0;
    let mut fi = 0;
    while li < lines.len() {
        let l = lines[li];
        if !l.starts_with("define ") { li += 1; continue; }
        let mut end = li + 1;
        while lines[end] != "}" { end += 1; }
        let body = &lines[li + 1..end];
        let f = parse_fn(&mut m, &gaddr, &types, &mut extidx, l, body).map_err(|e| format!("in {}: {}", &l[..l.len().min(300)], e))?;
        let name = std::mem::take(&mut m.funcs[fi].name);
        m.funcs[fi] = f;
        m.funcs[fi].name = name;
        fi += 1;
        li = end + 1;
    }
    Ok(m)
}

fn parse_fn(m: &mut Module, gaddr: &HashMap<String, u64>, types: &HashMap<String, Ty>, extidx: &mut HashMap<String, u32>, head: &str, body: &[&str]) -> R<Func> {
    let mut f = Func::default();
    let toks = lex(head);
    let mut gi = m.ninst;
    let mut p = Parser { t: toks, p: 0, m, gaddr, types, regs: HashMap::new(), labels: HashMap::new(), last_rel: None, extidx };
    p.p = 1;
    p.skip_attrs();
    p.ty()?;
    p.next(); // name
    p.expect('(')?;
    let mut unnamed = 0u32;
    if !p.eatp(')') {
        loop {
            if *p.peek() == T::Dots { p.p += 1; f.varargs = true; p.expect(')')?; break; }
            let t = p.ty()?;
            p.skip_pattrs();
            let r = f.params.len() as u32;
            if let T::L(n) = p.peek().clone() {
                p.p += 1;
                if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                p.regs.insert(n, r);
            } else {
                p.regs.insert(unnamed.to_string(), r);
                unnamed += 1;
            }
            f.params.push(t);
            if p.eatp(')') { break; }
            p.expect(',')?;
        }
    }
    while p.p < p.t.len() {
        if let T::M(n) = p.peek().clone() {
            if n == "dbg" { p.p += 1; if let T::M(k) = p.next() { f.sp = k.parse().unwrap_or(0); } continue; }
        }
        p.p += 1;
    }
    // logical lines
    let mut ls: Vec<String> = vec![];
    let mut i = 0;
    while i < body.len() {
        let l = body[i];
        let tl = l.trim_start();
        if tl.is_empty() || tl.starts_with("#dbg") || tl.starts_with(';') { i += 1; continue; }
        let mut s = l.to_string();
        if tl.starts_with("switch ") && !tl.contains(" ]") {
            while !body[i].trim_start().starts_with(']') && !body[i].contains(" ]") { i += 1; s.push(' '); s.push_str(body[i]); }
        } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
            while !s.contains(" unwind label ") { i += 1; s.push(' '); s.push_str(body[i]); }
        }
        i += 1;
        if s.starts_with("          ") && (tl.starts_with("cleanup") || tl.starts_with("catch") || tl.starts_with("filter")) { continue; }
        ls.push(s);
    }
    // labels and registers
    let is_label = |s: &str| !s.starts_with(' ');
    let mut blocks: Vec<Vec<String>> = vec![];
    if !ls.is_empty() && !is_label(&ls[0]) {
        p.labels.insert(unnamed.to_string(), 0);
        blocks.push(vec![]);
    }
    let mut nregs = f.params.len() as u32;
    for s in ls {
        if is_label(&s) {
            let n = if s.starts_with('"') { s[1..].split('"').next().unwrap().to_string() } else { s.split(':').next().unwrap().to_string() };
            p.labels.insert(n, blocks.len() as u32);
            blocks.push(vec![]);
            continue;
        }
        let t = s.trim_start();
        if t.starts_with('%') {
            if let Some(T::L(n)) = lex(t.split(" = ").next().unwrap()).into_iter().next() {
                p.regs.insert(n, nregs);
                nregs += 1;
            }
        }
        blocks.last_mut().unwrap().push(s);
    }
    f.nregs = nregs;
    for b in blocks {
        let mut blk = Block::default();
        for s in b {
            p.t = lex(&s);
            p.p = 0;
            let mut dst = u32::MAX;
            if let T::L(n) = p.peek().clone() {
                dst = p.regs[&n];
                p.p += 1;
                p.expect('=')?;
            }
            let mut dbg = 0;
            if let Some(k) = p.t.iter().rposition(|t| *t == T::M("dbg".into())) {
                if let Some(T::M(x)) = p.t.get(k + 1) { dbg = x.parse().unwrap_or(0); }
            }
            if p.isw("phi") {
                p.p += 1;
                p.flags();
                let ty = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.expect('[')?;
                    let v = p.val(&ty)?;
                    p.expect(',')?;
                    let l = match p.next() { T::L(n) => *p.labels.get(&n).ok_or(format!("phi label {}", n))?, t => return Err(format!("phi {:?}", t)) };
                    p.expect(']')?;
                    inc.push((l, v));
                    if !p.isp(',') || *p.peek2() != T::P('[') { break; }
                    p.p += 1;
                }
                blk.phis.push(Phi { dst, ty: Some(ty), inc });
                continue;
            }
            let (i, _) = p.inst().map_err(|e| format!("{}: {}", s.trim(), e))?;
            if let I::Call(Callee::Asm, ..) = &i { if dst == u32::MAX { if let I::Call(_, _, _, None) = i { continue; } } }
            blk.ins.push(Inst { i, dst, dbg, gid: gi });
            gi += 1;
        }
        f.blocks.push(blk);
    }
    p.m.ninst = gi;
    Ok(f)
}
